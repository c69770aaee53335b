PROPERTY = "C30"
NEEDS = "somebody other than the pool's creator writing the pool's metadata record first"
BREAKS = "anyone can write a pool's metadata record, once and for all"
EDITS = [("lib.rs", """    #[access_control(is_pool_creator(&ctx.accounts.virtual_pool, ctx.accounts.creator.key))]
    pub fn create_virtual_pool_metadata(""", """    pub fn create_virtual_pool_metadata(""")]
DEMO = """
c = Chain().launch()
d = c.do("PoolMeta", by="eve", text=2)
check(not d.ok, "a stranger wrote the pool's metadata record")
c.must("PoolMeta", by="creator", text=0)
"""
