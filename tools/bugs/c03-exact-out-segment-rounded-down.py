PROPERTY = "C03"
NEEDS = "an exact-output buy that crosses a whole curve segment whose quote amount is not an integer"
BREAKS = "the input of a fully crossed segment is rounded down for exact-output buys: the pool is short one unit per crossed segment"
EDITS = [("state/virtual_pool.rs", """                    let next_sqrt_price = config.curve[i].sqrt_price;
                    let input_amount = get_delta_amount_quote_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        config.curve[i].liquidity,
                        Rounding::Up,
                    )?;
                    total_input_amount""", """                    let next_sqrt_price = config.curve[i].sqrt_price;
                    let input_amount = get_delta_amount_quote_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        config.curve[i].liquidity,
                        Rounding::Down,
                    )?;
                    total_input_amount""")]
DEMO = """
# two segments; the first needs a broken number of quote units
p1, p2 = Q64 + Q64 // 3, 2 * Q64
l = 10**12 * Q64 + 12345678901234567
c = Chain().launch(curve=[dict(p=p1, l=l), dict(p=p2, l=l)], migQuote=9 * 10**11)
first = l * (p1 - Q64) // (p1 * Q64)          # base of the first segment, down
d = c.do("Swap", **swap(mode=2, a0=first + 5 * 10**9))
check(d.ok, "refused " + d.err)
s = d.ev("swap2")[0]
exact = l * (s["price"] - Q64)                # in 2^-128 units of quote
check(s["excl"] << 128 >= exact, "the pool received less than the curve asks for")
need = -(-l * (p1 - Q64) // 2**128) + -(-l * (s["price"] - p1) // 2**128)
check(s["excl"] == need, "input %d instead of %d" % (s["excl"], need))
"""
