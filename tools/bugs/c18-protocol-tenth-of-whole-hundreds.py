PROPERTY = "C18"
NEEDS = "a pool creation fee that is not a multiple of a hundred lamports"
BREAKS = "the protocol's 10% is taken of the whole hundreds of the fee only"
EDITS = [("state/config.rs", """        let protocol_fee = safe_mul_div_cast_u64(
            self.pool_creation_fee,
            PROTOCOL_POOL_CREATION_FEE_PERCENT.into(),
            100,
            Rounding::Down,
        )?;""", """        let protocol_fee = self
            .pool_creation_fee
            .safe_div(100)?
            .safe_mul(PROTOCOL_POOL_CREATION_FEE_PERCENT.into())?;""")]
DEMO = """
c = Chain().launch(creationFee=10000095)
c.must("CreateOperator", who="op0", perm=1, by="admin0")
b = c.w["lam"].get("treasury", 0)
c.must("ClaimCreationFee", side="protocol", by="op0", to="treasury")
got = c.w["lam"].get("treasury", 0) - b
check(got == 1000009, "the protocol got %d of 10000095" % got)
"""
