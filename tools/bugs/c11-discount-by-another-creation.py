PROPERTY = "C11"
NEEDS = "a pool with the discount whose first swap is still open, swapped in a transaction that creates some other pool"
BREAKS = "any pool creation earlier in the transaction earns the discount, not only this pool's own"
EDITS = [("instructions/swap/ix_swap.rs", """                if account.pubkey.eq(pool) {
                    //pass
                    return Ok(());
                }""", """                if account.is_writable && !account.pubkey.eq(&Pubkey::default()) {
                    //pass
                    return Ok(());
                }""")]
DEMO = """
c = Chain().launch(firstMin=True, base=dict(cliff=500000000, bmode=0, f1=4, f2=1000, f3=100000000))
d = c.tx(ix("OtherInit", extra=False), ix("Swap", sv="real", **swap(a0=10**9)))
check(d[-1].ok, "refused " + d[-1].err)
s = d[-1].ev("swap2")[0]
check(s["trade"] + s["prot"] == 500000000, "fee %d in a transaction that created another pool" % (s["trade"] + s["prot"]))
"""
