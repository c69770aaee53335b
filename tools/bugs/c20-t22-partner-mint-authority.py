PROPERTY = "C20"
NEEDS = "a Token-2022 launch whose configuration gives mint authority to the partner"
BREAKS = "with Token-2022 the mint authority goes to the creator instead of the partner"
EDITS = [("instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", """        token_authority.get_mint_authority(ctx.accounts.creator.key(), config.fee_claimer.key());""", """        token_authority.get_mint_authority(ctx.accounts.creator.key(), ctx.accounts.creator.key());""")]
DEMO = """
c = Chain(t22=True).launch(tokAuth=4, tokenType=1)
check(c.w["mint"]["auth"] == "partner", "mint authority " + c.w["mint"]["auth"])
"""
