PROPERTY = "C15"
NEEDS = "a surplus that is not a multiple of five"
BREAKS = "the protocol's surplus share is 20% rounded down instead of the rest, so the three shares do not sum to the surplus"
EDITS = [("state/virtual_pool.rs", """        let partner_surplus_amount = self.get_partner_and_creator_surplus(total_surplus)?;
        Ok(total_surplus.safe_sub(partner_surplus_amount)?)""", """        let partner_and_creator_surplus_amount =
            self.get_partner_and_creator_surplus(total_surplus)?;
        let protocol_surplus_amount: u64 =
            safe_mul_div_cast_u64(total_surplus, 20, 100, Rounding::Down)?;
        Ok(protocol_surplus_amount.min(total_surplus.safe_sub(partner_and_creator_surplus_amount)?))""")]
DEMO = """
c = Chain().launch()
c.fill()
c.must("Overshoot", amount=1237)
s = c.pool["quoteRes"] - c.w["cfg"]["migQuote"]
c.must("CreateOperator", who="op0", perm=1, by="admin0")
b = c.tok("treasury.q")
f = c.pool["protQ"]
c.must("ClaimProtocol", a=0, b=U64, by="op0")
got = c.tok("treasury.q") - b - f
check(s % 5 != 0, "surplus %d" % s)
check(got == s - s * 80 // 100, "protocol got %d of a surplus of %d" % (got, s))
"""
