PROPERTY = "C09"
NEEDS = "the limiter in force, one outer instruction of an aggregator making: a buy of the pool, a call of another program, a second buy of the pool"
BREAKS = "the search for sibling swaps stops at the first sibling of another program, so a large buy can be split inside one transaction"
EDITS = [("instructions/swap/ix_swap.rs", """            if sibling_instruction.program_id == crate::ID {
                require!(
                    !is_instruction_include_pool_swap(&sibling_instruction, pool),
                    PoolError::FailToValidateSingleSwapInstruction
                );
            }
""", """            if sibling_instruction.program_id != crate::ID {
                break;
            }
            require!(
                !is_instruction_include_pool_swap(&sibling_instruction, pool),
                PoolError::FailToValidateSingleSwapInstruction
            );
""")]
DEMO = """
c = Chain().launch(base=dict(cliff=10000000, bmode=2, f1=100, f2=1000, f3=10**8))
buy = dict(a0=5 * 10**8)
d = c.tx(ix("Swap", sv="real", via=1, **swap(**buy)))
check(d[0].ok, "a single buy is refused " + d[0].err)
d = c.tx(ix("Swap", sv="real", via=1, **swap(**buy)), ix("Foreign", via=1, join=True, touches=False, mimic=0), ix("Swap", sv="real", via=1, join=True, **swap(**buy)))
check(not d[-1].ok, "a buy was split inside one transaction")
"""
