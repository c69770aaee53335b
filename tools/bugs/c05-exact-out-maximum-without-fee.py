PROPERTY = "C05"
NEEDS = "an exact-output buy on a pool that takes its fee from the input, with a maximum between the net and the gross input"
BREAKS = "the caller's maximum is compared to the input without the fee, so more than the maximum is taken"
EDITS = [("instructions/swap/swap_exact_out.rs", """    require!(
        included_fee_input_amount <= maximum_amount_in,""", """    require!(
        swap_result.excluded_fee_input_amount <= maximum_amount_in,""")]
DEMO = """
c = Chain().launch()
b0 = c.tok("trader0.q")
d = c.do("Swap", **swap(mode=2, a0=10**9))
check(d.ok, "refused")
e = c.do("Swap", **swap(mode=2, a0=10**9, a1=d.ev("swap2")[0]["incl"] * 999 // 1000))
check(not e.ok, "took more than the maximum")
"""
