PROPERTY = "C33"
NEEDS = "the partner claiming the pool creation fee after the protocol has claimed its share"
BREAKS = "the partner's claim also clears the mark of the protocol's claim, which can then be made again from the pool's rent"
EDITS = [("state/virtual_pool.rs", """    pub fn update_partner_pool_creation_fee_claimed(&mut self) {
        self.creation_fee_bits = self
            .creation_fee_bits
            .bitxor(PARTNER_CREATION_FEE_CLAIMED_MASK)
    }""", """    pub fn update_partner_pool_creation_fee_claimed(&mut self) {
        self.creation_fee_bits = PARTNER_CREATION_FEE_CLAIMED_MASK
    }""")]
DEMO = """
c = Chain().launch(creationFee=10**8)
c.must("CreateOperator", who="op0", perm=3, by="admin0")
c.must("ClaimCreationFee", side="protocol", by="op0", to="treasury")
bits = c.pool["creationBits"]
c.must("ClaimCreationFee", side="partner", by="partner", to="partner")
check(c.pool["creationBits"] & bits == bits, "the protocol's claim was forgotten")
"""
