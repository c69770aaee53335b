PROPERTY = "C21"
NEEDS = "a migrated fixed-supply launch whose protocol migration fee in base tokens is still unclaimed"
BREAKS = "the leftover withdrawal takes the protocol's unclaimed migration fee along"
EDITS = [("instructions/migration/withdraw_leftover.rs", """        .safe_sub(virtual_pool.get_protocol_and_trading_base_fee()?)?
        .safe_sub(virtual_pool.protocol_migration_base_fee_amount)?;""", """        .safe_sub(virtual_pool.get_protocol_and_trading_base_fee()?)?;""")]
DEMO = """
c = Chain().launch(hasSupply=True, preSupply=4 * 10**12, postSupply=4 * 10**12)
c.fill()
c.must("V2Migrate", by="cranker", evil=0, second=True, venue=dict(VENUE2, feeNum=10000000))
f = c.pool["migProtB"]
check(f > 0, "no migration fee")
c.must("Leftover", by="cranker")
check(c.tok("vault.b") >= f, "%d left for a migration fee of %d" % (c.tok("vault.b"), f))
"""
