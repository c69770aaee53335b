PROPERTY = "C07"
NEEDS = "a trading fee whose creator share is not a whole number"
BREAKS = "the creator's share of a trading fee is rounded up instead of down"
EDITS = [("state/config.rs", """            fee,
            self.creator_trading_fee_percentage.into(),
            100,
            Rounding::Down,""", """            fee,
            self.creator_trading_fee_percentage.into(),
            100,
            Rounding::Up,""")]
DEMO = """
c = Chain().launch(creatorPct=33)
part = cre = 0
for i in range(10):
    d = c.do("Swap", **swap(a0=10**6 + 137 * i, legacy=i % 2 == 0))
    check(d.ok, "refused " + d.err)
    t = d.ev("swap2")[0]["trade"]
    cre += t * 33 // 100
    part += t - t * 33 // 100
    check(c.pool["creQ"] == cre and c.pool["partQ"] == part, "creator %d instead of %d" % (c.pool["creQ"], cre))
"""
