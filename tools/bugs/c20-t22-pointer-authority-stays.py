PROPERTY = "C20"
NEEDS = "a token-2022 launch whose configuration names nobody who may update the token's metadata"
BREAKS = "the authority to repoint the token's metadata stays with the creator of a token declared immutable"
EDITS = [("instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", """        AuthorityType::MetadataPointer,
        token_update_authority,""", """        AuthorityType::MetadataPointer,
        token_update_authority
            .or(token_authority.get_mint_authority(
                ctx.accounts.creator.key(),
                config.fee_claimer.key(),
            ))
            .or(Some(ctx.accounts.creator.key())),""")]
DEMO = """
c = Chain(t22=True).launch(tokAuth=1, tokenType=1)
check("creator" not in str(c.w.get("mint")), "the creator keeps authority over the immutable token: %s" % c.w.get("mint"))
"""
