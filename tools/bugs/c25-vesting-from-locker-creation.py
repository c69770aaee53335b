PROPERTY = "C25"
NEEDS = "a locker that is created some time after the curve completed"
BREAKS = "the vesting schedule counts from the creation of the locker instead of the completion of the curve"
EDITS = [("instructions/migration/create_locker.rs", """        .to_create_vesting_escrow_params(virtual_pool.finish_curve_timestamp)?;""", """        .to_create_vesting_escrow_params(Clock::get()?.unix_timestamp as u64)?;""")]
DEMO = """
c = Chain().launch(lv=dict(per=10**6, cliffDur=100, freq=60, n=10, cliffAmt=10**9))
c.fill()
t = c.pool["finish"]
c.warp(slots=500, secs=3600)
d = c.do("CreateLocker", by="cranker", evil=0)
check(d.ok, "refused " + d.err)
k = [x["n"] for x in d.calls if "start" in x["n"]]
check(len(k) > 0 and k[0]["start"] == t, "the vesting starts at %s instead of %d" % ([x for x in k], t))
"""
