PROPERTY = "C14"
NEEDS = "a partner claim of base fees with a maximum below the accrued base fees"
BREAKS = "what a partial claim leaves of the partner's base fees is lost to the partner"
EDITS = [("state/virtual_pool.rs", """        self.partner_base_fee = self.partner_base_fee.safe_sub(token_base_amount)?;""", """        self.partner_base_fee = if token_base_amount == max_base_amount {
            0
        } else {
            self.partner_base_fee.safe_sub(token_base_amount)?
        };""")]
DEMO = """
c = Chain().launch(collect=1, creatorPct=0)
for i in range(3):
    d = c.do("Swap", **swap(a0=10**9 + i))
    check(d.ok, "refused " + d.err)
due = c.pool["partB"]
d = c.do("ClaimTrade", side="partner", a=due // 3, b=0, by="partner", baseTo="partner.b", quoteTo="partner.q")
check(d.ok and c.pool["partB"] == due - due // 3, "%d left of %d" % (c.pool["partB"], due))
"""
