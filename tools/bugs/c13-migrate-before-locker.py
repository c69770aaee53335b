PROPERTY = "C13"
NEEDS = "a pool with vesting that is migrated before anyone has created its locker"
BREAKS = "the v2 migration is accepted in the locker-pending stage, and the vesting amount goes into the migrated pool"
EDITS = [("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", """        virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting,""", """        virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting
            || (virtual_pool.finish_curve_timestamp > 0
                && virtual_pool.get_migration_progress()? == MigrationProgress::PostBondingCurve),""")]
DEMO = """
c = Chain().launch(lv=dict(per=10**6, cliffDur=100, freq=60, n=10, cliffAmt=10**9))
c.fill()
d = c.do("V2Migrate", by="cranker", evil=0, second=True, venue=dict(VENUE2, feeNum=10000000))
check(not d.ok and c.pool["stage"] == 1, "migrated although the locker is pending")
"""
