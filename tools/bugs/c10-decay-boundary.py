PROPERTY = "C10"
NEEDS = "a dynamic fee, volatility from an earlier trade, and the next trade exactly at the end of the decay period"
BREAKS = "at exactly the decay period the old volatility is still carried over instead of being dropped"
EDITS = [("state/fee.rs", """            if elapsed < dynamic_fee_config.decay_period as u64 {""", """            if elapsed <= dynamic_fee_config.decay_period as u64 {""")]
DEMO = """
DYN = dict(on=True, bin=1, binQ=1844674407370955, filter=10, decay=120, red=5000, maxVol=14460000, vfc=48)
c = Chain().launch(hasDyn=True, dyn=DYN)
c.must("Swap", **swap(a0=10**11))
check(c.pool["vol"]["acc"] > 0, "no volatility")
c.warp(0, 120)
c.must("Swap", **swap(a0=1000))
check(c.pool["vol"]["vref"] == 0 and c.pool["vol"]["acc"] == 0, "volatility carried over after the decay period")
"""
