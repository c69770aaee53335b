PROPERTY = "C32"
NEEDS = "a configuration whose vesting cliff lies beyond the last representable second (accepted at creation), and a completed curve"
BREAKS = "the cliff's time overflows instead of saturating, so the locker can never be created and the launch is stuck before migration"
EDITS = [("instructions/partner/ix_create_config.rs", """            finish_curve_timestamp.saturating_add(self.cliff_duration_from_migration_time);""", """            finish_curve_timestamp.safe_add(self.cliff_duration_from_migration_time)?;""")]
DEMO = """
c = Chain().launch(lv=dict(per=10**6, cliffDur=U64, freq=60, n=10, cliffAmt=10**9))
c.fill()
d = c.do("CreateLocker", by="cranker", evil=0)
check(d.ok, "the launch cannot go on: " + d.err)
"""
