PROPERTY = "C27"
NEEDS = "a partial-fill quote on a pool whose fee schedule runs in slots, at a moment when slots and seconds give different rates"
BREAKS = "the quote for a partial fill uses the timestamp as the present slot"
EDITS = [("//dynamic-bonding-curve-sdk/src/quote_partial_fill.rs", """        ActivationType::Slot => current_slot,""", """        ActivationType::Slot => current_timestamp,""")]
DEMO = """
c = Chain(slot=1000, ts=1_700_000_000).launch(actType=0, base=dict(cliff=500000000, bmode=0, f1=4, f2=100000, f3=100000000))
d = c.do("Swap", **swap(mode=1, a0=10**9))
check(d.ok, "refused " + d.err)
s = d.ev("swap2")[0]
q = d.quote["later"]
check(q["ok"] and q["out"] == s["out"] and q["trade"] == s["trade"], "quoted %d, paid %d" % (q["out"], s["out"]))
"""
