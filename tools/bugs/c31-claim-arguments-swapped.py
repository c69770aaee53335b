PROPERTY = "C31"
NEEDS = "a claim of trading fees with different maxima for the two tokens, sent by a client that encodes the released interface"
BREAKS = "the two maxima of the partner's claim change places in the instruction's encoding: existing clients cap the wrong token"
EDITS = [("lib.rs", """    pub fn claim_trading_fee(
        ctx: Context<ClaimTradingFeesCtx>,
        max_amount_a: u64,
        max_amount_b: u64,
    ) -> Result<()> {""", """    pub fn claim_trading_fee(
        ctx: Context<ClaimTradingFeesCtx>,
        max_amount_b: u64,
        max_amount_a: u64,
    ) -> Result<()> {""")]
DEMO = """
c = Chain(wire=True).launch()
c.swap(a0=10**9)
d = c.must("ClaimTrade", side="partner", a=123, b=45678, by="partner", baseTo="partner.b", quoteTo="partner.q")
check(d.data()[8:] == (123).to_bytes(8, "little") + (45678).to_bytes(8, "little"), "a claim of at most 123 base and 45678 quote is encoded as " + d.data()[8:].hex())
"""
