PROPERTY = "C31"
NEEDS = "a v1 migration record written by an earlier release (or read by a client) with some of its flags set"
BREAKS = "the flags of the v1 migration record move by one byte: records written earlier read as locked/claimed by the wrong party"
EDITS = [("instructions/migration/meteora_damm/meteora_damm_metadata_state.rs", """    /// padding
    pub _padding_0: u8,
    /// flag to check whether liquidity token is locked for creator
    pub creator_locked_status: u8,
    /// flag to check whether liquidity token is locked for partner
    pub partner_locked_status: u8,
    /// flag to check whether creator has claimed liquidity token
    pub creator_claim_status: u8,
    /// flag to check whether partner has claimed liquidity token
    pub partner_claim_status: u8,
    /// Reserve
    pub _padding: [u8; 107],""", """    /// flag to check whether liquidity token is locked for creator
    pub creator_locked_status: u8,
    /// flag to check whether liquidity token is locked for partner
    pub partner_locked_status: u8,
    /// flag to check whether creator has claimed liquidity token
    pub creator_claim_status: u8,
    /// flag to check whether partner has claimed liquidity token
    pub partner_claim_status: u8,
    /// Reserve
    pub _padding: [u8; 108],""")]
DEMO = """
c = Chain(wire=True).launch(migOpt=0, pPerm=30, pLiq=20, cPerm=30, cLiq=20)
c.fill()
c.must("V1Meta", by="cranker")
c.must("V1Migrate", by="cranker", evil=0, lp=10**9, venue=VENUE1)
a = c.must("V1ClaimLp", owner="partner", by="cranker").rec("v1meta")
b = c.must("V1LockLp", owner="creator", by="cranker", evil=0).rec("v1meta")
# released layout: 8 + 4 * 32 + 4 * 8 bytes, one byte of padding, creator locked, partner locked, creator claimed, partner claimed
check(a[168:173] == bytes([0, 0, 0, 0, 1]), "after the partner's claim the flags are " + a[168:173].hex())
check(b[168:173] == bytes([0, 1, 0, 0, 1]), "after the creator's lock the flags are " + b[168:173].hex())
"""
