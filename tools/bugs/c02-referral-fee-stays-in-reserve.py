PROPERTY = "C02"
NEEDS = "a swap whose fee is taken from the output and that names a referrer"
BREAKS = "the referral fee leaves the vault but not the reserve, so books and vault drift apart"
EDITS = [("state/virtual_pool.rs", """            output_amount
                .safe_add(trading_fee)?
                .safe_add(protocol_fee)?
                .safe_add(referral_fee)?
        };

        if trade_direction""", """            output_amount
                .safe_add(trading_fee)?
                .safe_add(protocol_fee)?
        };

        if trade_direction""")]
DEMO = """
c = Chain().launch(collect=1)
d = c.do("Swap", **swap(a0=10**11, referral="referrer.b"))
check(d.ok, "refused " + d.err)
p = c.pool
check(c.tok("referrer.b") > 0, "no referral")
check(c.tok("vault.b") == p["baseRes"] + p["protB"] + p["partB"] + p["creB"], "base vault and books differ")
"""
