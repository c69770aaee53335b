PROPERTY = "C09"
NEEDS = "two buys made through a program that is itself called by a program, inside one instruction"
BREAKS = "swaps one call level deeper are let through, where the search for siblings cannot see the other one"
EDITS = [("instructions/swap/ix_swap.rs", """        if get_stack_height() > 2 {""", """        if get_stack_height() > 3 {""")]
DEMO = """
c = Chain().launch(base=dict(cliff=10000000, bmode=2, f1=1000, f2=20000, f3=10**8))
d = c.tx(ix("Swap", sv="real", via=2, **swap(a0=10**9)), ix("Swap", sv="real", via=2, join=True, **swap(a0=10**9)))
check(not all(x.ok for x in d), "a buy was split inside one instruction")
"""
