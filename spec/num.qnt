// Exact integer arithmetic shared by the specification. Quint integers are unbounded; every width limit of the
// implementation that is observable (an operation is refused) is stated explicitly where it applies.
module num {
  pure val U8 = 255
  pure val U16 = 65535
  pure val U24 = 16777215
  pure val U32 = 4294967295
  pure val U64 = 18446744073709551615
  pure val U128 = 340282366920938463463374607431768211455
  pure val U256 = 115792089237316195423570985008687907853269984665640564039457584007913129639935
  pure val Q64 = 18446744073709551616
  pure val Q128 = 340282366920938463463374607431768211456

  // The value returned by partial integer functions that have no answer (the operation must be refused).
  pure val FAIL = -1

  pure def cdiv(a: int, b: int): int = (a + b - 1) / b
  pure def divr(a: int, b: int, up: bool): int = if (up) cdiv(a, b) else a / b
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def max(a: int, b: int): int = if (a > b) a else b
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def clamp(x: int, lo: int, hi: int): int = max(lo, min(x, hi))
  pure def fits(x: int, top: int): bool = 0 <= x and x <= top
  pure def pct(x: int, p: int): int = x * p / 100
  pure def b2i(b: bool): int = if (b) 1 else 0

  // floor(sqrt(n)) for 0 <= n < 2^256: Newton from a power of two not below the root
  pure val sqrtSeeds: List[int] = [65536, 4294967296, 281474976710656, 18446744073709551616,
    1208925819614629174706176, 79228162514264337593543950336, 5192296858534827628530496329220096]
  pure def isqrt(n: int): int =
    if (n < 2) n else {
      pure val seed = sqrtSeeds.foldl(Q128, (acc, s) => if (acc == Q128 and s * s > n) s else acc)
      range(0, 24).foldl(seed, (x, i) => { pure val y = (x + n / x) / 2 if (y < x) y else x })
    }

  // base^e in Q64.64 fixed point for base < 1, truncating after every multiplication, by binary exponentiation
  // (least significant bit first); FAIL when the result vanishes.
  pure def powQ64(base: int, e: int): int =
    if (e == 0) Q64
    else if (base >= Q64) Q64
    else {
      pure val r = range(0, 19).foldl({ res: Q64, sq: base, e: e }, (s, i) => {
        res: if (s.e % 2 == 1) s.res * s.sq / Q64 else s.res,
        sq: if (s.e > 1) s.sq * s.sq / Q64 else s.sq,
        e: s.e / 2
      })
      if (r.res == 0) FAIL else r.res
    }
}
