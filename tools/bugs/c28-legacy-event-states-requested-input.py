PROPERTY = "C28"
NEEDS = "a partial-fill swap that takes less than the stated input"
BREAKS = "the first swap event reports the stated input instead of the one taken"
EDITS = [("instructions/swap/ix_swap.rs", """        amount_in: swap_result_2.included_fee_input_amount,""", """        amount_in: if swap_result_2.amount_left > 0 {
            amount_0
        } else {
            swap_result_2.included_fee_input_amount
        },""")]
DEMO = """
c = Chain().launch()
d = c.do("Swap", **swap(mode=1, a0=10**13))
check(d.ok, "refused " + d.err)
s = d.ev("swap2")[0]
e = d.ev("swap")[0]
check(s["left"] > 0, "nothing left over")
k = [x for x in e if e[x] == 10**13]
check(not k, "the event reports %s = the stated input although only %d was taken" % (k, s["incl"]))
"""
