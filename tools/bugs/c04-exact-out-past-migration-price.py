PROPERTY = "C04"
NEEDS = "an exact-output buy for more base than remains below the migration price, on a curve that continues beyond it"
BREAKS = "an exact-output buy can push the price above the migration price"
EDITS = [("state/virtual_pool.rs", """        require!(
            next_sqrt_price <= config.migration_sqrt_price,
            PoolError::InsufficientLiquidity
        );

        let (excluded""", """        require!(
            trade_direction == TradeDirection::BaseToQuote
                || self.sqrt_price <= config.migration_sqrt_price,
            PoolError::InsufficientLiquidity
        );

        let (excluded""")]
DEMO = """
c = Chain().launch(migQuote=5 * 10**11)   # the curve could take 10**12
mp = c.w["cfg"]["migPrice"]
d = c.do("Swap", **swap(mode=2, a0=c.w["cfg"]["swapBase"] + 3 * 10**9))
check(not d.ok or c.pool["price"] <= mp, "price %d above the migration price %d" % (c.pool["price"], mp))
"""
