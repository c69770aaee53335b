PROPERTY = "C33"
NEEDS = "a creator's surplus withdrawal that names the quote vault of another launch with the same quote token"
BREAKS = "the creator's surplus is taken from another launch's vault"
EDITS = [("instructions/creator/ix_withdraw_creator_surplus.rs", """        has_one = quote_vault,
        has_one = config,""", """        has_one = config,""")]
DEMO = """
c = Chain().launch()
c.fill()
d = c.tx(ix("Surplus", side="creator", by="creator", to="creator.q", sub=[("quote_vault", "tvault.q")]))[0]
check(not d.ok, "the surplus was paid from another launch's vault")
"""
