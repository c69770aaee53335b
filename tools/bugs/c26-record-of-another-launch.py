PROPERTY = "C26"
NEEDS = "a migrated v1 launch with undelivered LP tokens, and the migration record of another, fully delivered launch given instead"
BREAKS = "the creator role can be handed over while LP tokens of the previous creator are undelivered, by passing another launch's record"
EDITS = [("instructions/creator/ix_transfer_pool_creator.rs", """                require!(
                    migration_metadata.virtual_pool == ctx.accounts.virtual_pool.key(),
                    PoolError::InvalidAccount
                );
""", """""")]
DEMO = """
c = Chain().launch(migOpt=0, pPerm=30, pLiq=20, cPerm=30, cLiq=20)
c.fill()
c.must("V1Meta", by="cranker")
c.must("V1Migrate", by="cranker", evil=0, lp=10**9, venue=VENUE1)
d = c.do("TransferCreator", to="trader1", by="creator", meta="tv1meta")
check(not d.ok, "the creator changed before the LP tokens were delivered")
"""
