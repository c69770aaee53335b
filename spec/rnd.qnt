// Deterministic choices from a seed, so that a history is reproduced by its seed alone.
module rnd {
  import num.* from "./num"

  pure val P = 170141183460469231731687303715884105727
  pure def fifth(x: int): int = { pure val q = x * x % P pure val r = q * q % P r * x % P }
  // the k-th number drawn from seed s
  pure def h(s: int, k: int): int = fifth((fifth((s + (k + 1) * 11400714819323198485) % P) + 88172645463325252) % P) / 1099511627776
  pure def pick(s: int, k: int, n: int): int = if (n <= 1) 0 else h(s, k) % n
  pure def between(s: int, k: int, lo: int, hi: int): int = if (hi <= lo) lo else lo + pick(s, k, hi - lo + 1)
  pure def chance(s: int, k: int, pc: int): bool = pick(s, k, 100) < pc
  pure def choose(s: int, k: int, l: List[a]): a = l[pick(s, k, l.length())]
  pure val powers: List[int] = range(0, 129).foldl([], (acc, i) => acc.append(2^i))
  pure def log2(n: int): int = {
    // by bisection; n < 2^128
    pure val a = [64, 32, 16, 8, 4, 2, 1].foldl({ n: n, r: 0 }, (s, d) => if (s.n >= powers[d]) { n: s.n / powers[d], r: s.r + d } else s)
    a.r
  }
  // log-uniform in lo..hi
  pure def logU(s: int, k: int, lo: int, hi: int): int = {
    if (hi <= lo) lo else {
      pure val l = max(lo, 1)
      pure val e = pick(s, k, log2(hi / l) + 1)
      pure val b = l * powers[e]
      min(hi, b + h(s, k + 50000) % b)
    }
  }
  // index drawn by weights
  pure def wpick(s: int, k: int, ws: List[int]): int = {
    pure val sum = ws.foldl(0, (a, x) => a + x)
    pure val r = pick(s, k, sum)
    ws.foldl({ i: 0, left: r, at: -1 }, (a, x) =>
      if (a.at >= 0) a else if (a.left < x) { i: a.i, left: 0, at: a.i } else { i: a.i + 1, left: a.left - x, at: -1 }).at
  }
}
