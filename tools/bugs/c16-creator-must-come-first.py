PROPERTY = "C16"
NEEDS = "the partner withdrawing its migration fee before the creator"
BREAKS = "after the partner's withdrawal the creator's is refused"
EDITS = [("instructions/migration/ix_withdraw_migration_fee.rs", """        let mask = CREATOR_MIGRATION_FEE_MASK;
        // Ensure the creator has never been withdrawn
        require!(
            pool.eligible_to_withdraw_migration_fee(mask),""", """        let mask = CREATOR_MIGRATION_FEE_MASK;
        // Ensure the creator has never been withdrawn
        require!(
            pool.migration_fee_withdraw_status < mask && pool.eligible_to_withdraw_migration_fee(mask),""")]
DEMO = """
c = Chain().launch(migFeePct=10, creatorMigPct=40)
c.fill()
d = c.do("WithdrawMigFee", flag=0, by="partner", to="partner.q")
check(d.ok, "refused " + d.err)
d = c.do("WithdrawMigFee", flag=1, by="creator", to="creator.q")
check(d.ok, "the creator was refused after the partner: " + d.err)
"""
