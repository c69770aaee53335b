PROPERTY = "C22"
NEEDS = "a v1 migration whose LP amount is not divisible by the configured percentages"
BREAKS = "the creator's share is rounded down as well, so the LP rounding dust belongs to nobody and stays locked in the program"
EDITS = [("state/config.rs", """        let creator_liquidity = liquidity
            .safe_sub(partner_liquidity)?
            .safe_sub(partner_permanent_locked_liquidity)?
            .safe_sub(partner_vested_liquidity)?
            .safe_sub(creator_permanent_locked_liquidity)?
            .safe_sub(creator_vested_liquidity)?;
""", """        let creator_liquidity = safe_mul_div_cast_u128(
            liquidity,
            self.creator_liquidity_percentage.into(),
            100,
            Rounding::Down,
        )?;
""")]
DEMO = """
c = Chain().launch(migOpt=0, pPerm=33, pLiq=17, cPerm=29, cLiq=21)
c.fill()
c.must("V1Meta", by="cranker")
c.must("V1Migrate", by="cranker", evil=0, lp=10**9 + 7, venue=VENUE1)
v = c.w["v1"]
check(v["pLocked"] + v["pLp"] + v["cLocked"] + v["cLp"] == 10**9 + 7, "%d of %d LP tokens assigned" % (v["pLocked"] + v["pLp"] + v["cLocked"] + v["cLp"], 10**9 + 7))
"""
