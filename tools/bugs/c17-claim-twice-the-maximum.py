PROPERTY = "C17"
NEEDS = "a protocol base claim after migration whose maximum lies below the unclaimed trading fees plus the migration fee"
BREAKS = "the part paid from the migration fee is bounded by the whole maximum, so a claim can pay up to twice the stated maximum"
EDITS = [("state/virtual_pool.rs", """        self.protocol_base_fee = self.protocol_base_fee.safe_sub(trading_claimed_fee)?;
        let max_amount = max_amount.safe_sub(trading_claimed_fee)?;
""", """        self.protocol_base_fee = self.protocol_base_fee.safe_sub(trading_claimed_fee)?;
""")]
DEMO = """
c = Chain().launch(collect=1)
for i in range(3):
    d = c.do("Swap", **swap(a0=10**10 + i))
    check(d.ok, "refused " + d.err)
c.fill()
c.must("V2Migrate", by="cranker", evil=0, second=True, venue=dict(VENUE2, feeNum=10000000))
c.must("CreateOperator", who="op0", perm=1, by="admin0")
p = c.pool
check(p["protB"] > 10 and p["migProtB"] > 10, "nothing to claim: %d, %d" % (p["protB"], p["migProtB"]))
m = min(p["protB"], p["migProtB"])
b = c.tok("treasury.b")
c.must("ClaimProtocol", a=m, b=0, by="op0")
check(c.tok("treasury.b") - b == m, "%d paid with a maximum of %d" % (c.tok("treasury.b") - b, m))
"""
