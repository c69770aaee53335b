PROPERTY = "C12"
NEEDS = "a configuration whose vesting consists of a cliff amount only"
BREAKS = "a pool with cliff-only vesting goes straight to the migration-ready stage when it completes"
EDITS = [("instructions/swap/ix_swap.rs", """        if locked_vesting_params.has_vesting() {""", """        if locked_vesting_params.number_of_period > 0 {""")]
DEMO = """
c = Chain().launch(lv=dict(per=0, cliffDur=100, freq=1, n=0, cliffAmt=10**9))
c.fill()
check(c.pool["stage"] == 1, "stage %d after completion with vesting" % c.pool["stage"])
"""
