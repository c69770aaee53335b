PROPERTY = "C32"
NEEDS = "a v1 launch whose partner is also its creator, with only one of the two parts of locked liquidity configured"
BREAKS = "the locked liquidity of a self-partnered launch cannot be locked unless both parts exist: it stays with the program for ever"
EDITS = [("instructions/migration/meteora_damm/meteora_damm_metadata_state.rs", """        require!(
            liquidity_token_to_lock != 0,
            PoolError::NotPermitToDoThisAction
        );""", """        require!(
            self.partner_locked_liquidity != 0 && self.creator_locked_liquidity != 0,
            PoolError::NotPermitToDoThisAction
        );""")]
DEMO = """
for parts in [dict(pPerm=60, pLiq=20, cPerm=0, cLiq=20), dict(pPerm=0, pLiq=20, cPerm=60, cLiq=20), dict(pPerm=30, pLiq=20, cPerm=30, cLiq=20)]:
    c = Chain().launch(migOpt=0, partner="creator", **parts)
    c.fill()
    c.must("V1Meta", by="cranker")
    c.must("V1Migrate", by="cranker", evil=0, lp=10**9, venue=VENUE1)
    d = c.do("V1LockLp", owner="creator", by="cranker", evil=0)
    check(d.ok, "the locked part of %s cannot be locked: %s" % (parts, d.err))
"""
