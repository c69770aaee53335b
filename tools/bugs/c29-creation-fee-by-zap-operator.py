PROPERTY = "C29"
NEEDS = "an operator that holds only the zap permission claiming a pool's creation fee"
BREAKS = "the protocol's creation fee is claimed with the zap permission instead of the claim permission"
EDITS = [("lib.rs", """OperatorPermission::ClaimProtocolFee))]
    pub fn claim_protocol_pool_creation_fee(""", """OperatorPermission::ZapProtocolFee))]
    pub fn claim_protocol_pool_creation_fee(""")]
DEMO = """
c = Chain().launch(creationFee=10000000)
c.must("CreateOperator", who="op0", perm=2, by="admin0")
d = c.do("ClaimCreationFee", side="protocol", by="op0", to="treasury")
check(not d.ok, "an operator with only the zap permission claimed the creation fee")
"""
