PROPERTY = "C06"
NEEDS = "a base rate near the cap with a dynamic rate on top, so that the sum exceeds 99%"
BREAKS = "a total rate between 99% and 100% is charged as it is, only above that it is cut to 99%"
EDITS = [("state/config.rs", """        // Cap the total fee at MAX_FEE_NUMERATOR
        let total_fee_numerator = if total_fee_numerator > MAX_FEE_NUMERATOR.into() {
            MAX_FEE_NUMERATOR""", """        // Cap the total fee at MAX_FEE_NUMERATOR
        let total_fee_numerator = if total_fee_numerator >= FEE_DENOMINATOR.into() {
            MAX_FEE_NUMERATOR""")]
DEMO = """
DYN = dict(on=True, bin=1, binQ=1844674407370955, filter=10, decay=120, red=5000, maxVol=14460000, vfc=2000)
c = Chain().launch(hasDyn=True, dyn=DYN, base=dict(cliff=989900000, bmode=0, f1=0, f2=0, f3=0))
for i in range(60):
    d = c.do("Swap", **swap(a0=2 * 10**11 + i))
    check(d.ok, "refused " + d.err)
    s = d.ev("swap2")[0]
    fee = s["trade"] + s["prot"] + s["ref"]
    most = -(-s["incl"] * 99 // 100)
    check(fee <= most, "fee %d above 99%% of %d" % (fee, s["incl"]))
"""
