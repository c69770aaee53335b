PROPERTY = "C23"
NEEDS = "a v2 migration whose second position has vested but no permanently locked liquidity"
BREAKS = "the vested liquidity of the second position is handed over unlocked"
EDITS = [("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", """        if second_position_liquidity_distribution.get_total_locked_liquidity()? > 0 {""", """        if second_position_liquidity_distribution.permanent_locked_liquidity > 0 {""")]
DEMO = """
c = Chain().launch(pPerm=0, pLiq=10, cPerm=50, cLiq=10, pv=dict(pct=30, bps=1000, n=10, freq=100, cliff=200000), hasSupply=True, preSupply=4 * 10**12, postSupply=4 * 10**12)
c.fill()
d = c.do("V2Migrate", by="cranker", evil=0, second=True, venue=dict(VENUE2, feeNum=10000000))
check(d.ok, "refused " + d.err)
v = c.w["v2"]
check(v["pos2"]["liq"] > 0 and v["pos2"]["vest"] > 0, "second position %s" % v["pos2"])
"""
