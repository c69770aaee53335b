PROPERTY = "C08"
NEEDS = "a linear schedule, a trade after more than the configured number of periods"
BREAKS = "after the last period the linear rate keeps falling (below the schedule's minimum)"
EDITS = [("base_fee/fee_scheduler.rs", """        let period = period.min(self.number_of_period.into());

        let base_fee_mode = FeeSchedulerMode::try_from(self.fee_scheduler_mode)
            .map_err(|_| PoolError::TypeCastFailed)?;
""", """        let base_fee_mode = FeeSchedulerMode::try_from(self.fee_scheduler_mode)
            .map_err(|_| PoolError::TypeCastFailed)?;
        let period = if base_fee_mode == FeeSchedulerMode::Exponential {
            period.min(self.number_of_period.into())
        } else {
            period.min(u16::MAX.into())
        };
""")]
DEMO = """
c = Chain().launch(base=dict(cliff=100000000, bmode=0, f1=2, f2=10, f3=10000000))
for k in [0, 1, 2, 3, 4]:
    d = c.do("Swap", **swap(a0=10**9))
    check(d.ok, "refused " + d.err)
    s = d.ev("swap2")[0]
    rate = 100000000 - min(k, 2) * 10000000
    check(s["trade"] + s["prot"] == 10**9 * rate // 10**9, "period %d: fee %d" % (k, s["trade"] + s["prot"]))
    c.warp(10, 10)
"""
