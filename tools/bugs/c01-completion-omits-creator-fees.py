PROPERTY = "C01"
NEEDS = "base fees collected in the base token with a creator share, a fixed supply with no slack (or dust), a curve driven to completion with the vault short by less than the creator's unclaimed base fees"
BREAKS = "the completing swap no longer reserves the creator's unclaimed base fees, so migration can consume tokens owed to the creator"
EDITS = [("state/virtual_pool.rs", """            .safe_add(self.protocol_base_fee)?
            .safe_add(self.creator_base_fee)?)""", """            .safe_add(self.protocol_base_fee)?)""")]
DEMO = """
# base fees accrue to the creator; the leftover must not contain them
c = Chain().launch(collect=1, creatorPct=50, migOpt=1, hasSupply=True, preSupply=10**15, postSupply=9 * 10**14, leftoverTo="leftover")
c.swap = None
c.must("Swap", **swap(a0=10**11))
c.fill()
due = c.pool["creB"] + c.pool["partB"] + c.pool["protB"]
check(c.pool["creB"] > 0, "no creator fee")
c.must("V2Migrate", by="cranker", evil=0, second=True, venue=dict(VENUE2, feeNum=10000000))
c.must("Leftover", by="cranker")
due = c.pool["creB"] + c.pool["partB"] + c.pool["protB"] + c.pool["migProtB"]
check(c.tok("vault.b") >= due, "the base vault holds %d of %d owed" % (c.tok("vault.b"), due))
"""
