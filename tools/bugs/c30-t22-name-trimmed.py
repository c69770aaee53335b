PROPERTY = "C30"
NEEDS = "a Token-2022 launch whose name begins or ends with a blank"
BREAKS = "a Token-2022 token's name is stored without its surrounding blanks"
EDITS = [("instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", """token_metadata_initialize(cpi_ctx, name, symbol, uri)?;""", """token_metadata_initialize(cpi_ctx, name.trim().to_string(), symbol, uri)?;""")]
DEMO = """
c = Chain(t22=True)
import copy
k = copy.deepcopy(CONFIG)
k.update(tokenType=1)
c.must("CreateConfig", **k)
c.must("InitPool", t22=True, creator="creator", text=4)
check(c.w["texts"]["mint"] == 4, "the token does not carry the name given")
"""
