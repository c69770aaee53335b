PROPERTY = "C19"
NEEDS = "a completed pool with a surplus, and somebody else with a configuration over the same quote token"
BREAKS = "a partner of any other configuration can withdraw the partner surplus of a pool"
EDITS = [("instructions/partner/ix_withdraw_partner_surplus.rs", """        has_one = quote_vault,
        has_one = config,
    )]""", """        has_one = quote_vault,
    )]""")]
DEMO = """
c = Chain().launch()
c.fill()
c.must("Overshoot", amount=10**6)
r = c.tx(ix("Surplus", side="partner", by="partner", to="eve.q", sub=[("config", "tcfg"), ("fee_claimer", "eve")]))[0]
check(not r.ok, "somebody else's configuration was accepted for the partner's surplus")
"""
