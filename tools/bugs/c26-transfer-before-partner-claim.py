PROPERTY = "C26"
NEEDS = "a v1-migrated pool on which everything is locked and claimed except the partner's free LP tokens"
BREAKS = "the creator role can be handed over while the partner's LP tokens are still unclaimed"
EDITS = [("instructions/creator/ix_transfer_pool_creator.rs", """                require!(
                    migration_metadata.partner_liquidity == 0
                        || migration_metadata.is_partner_claim_liquidity(),
                    PoolError::NotPermitToDoThisAction
                );
""", """""")]
DEMO = """
c = Chain().launch(migOpt=0, pPerm=33, pLiq=17, cPerm=29, cLiq=21)
c.fill()
c.must("V1Meta", by="cranker")
c.must("V1Migrate", by="cranker", evil=0, lp=0, venue=VENUE1)
c.must("V1LockLp", owner="partner", by="cranker", evil=0)
c.must("V1LockLp", owner="creator", by="cranker", evil=0)
c.must("V1ClaimLp", owner="creator", by="cranker")
d = c.do("TransferCreator", to="heir", by="creator", meta="v1meta")
check(not d.ok and c.pool["creator"] == "creator", "the creator role was handed over before the partner claimed")
"""
