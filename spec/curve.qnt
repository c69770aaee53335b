// The bonding curve: a piecewise constant-liquidity curve in sqrt-price space (Q64.64). Segment k runs from the
// previous point (the start price for k = 0) up to curve[k].p with liquidity curve[k].l.
module curve {
  import num.* from "./num"

  pure val MIN_SQRT = 4295048016
  pure val MAX_SQRT = 79226673521066979257578248091

  type Pt = { p: int, l: int }
  type Walk = { ok: bool, amt: int, price: int, left: int }

  // base tokens between two prices: L * (hi - lo) / (lo * hi)
  pure def dBase(lo: int, hi: int, l: int, up: bool): int = divr(l * (hi - lo), lo * hi, up)
  // quote tokens between two prices: L * (hi - lo) / 2^128
  pure def dQuote(lo: int, hi: int, l: int, up: bool): int = divr(l * (hi - lo), Q128, up)

  // price after paying base in: rounded up, so that the seller never moves the price further than paid for
  pure def nextBaseIn(p: int, l: int, a: int): int = if (a == 0) p else cdiv(l * p, l + a * p)
  // price after paying quote in: rounded down
  pure def nextQuoteIn(p: int, l: int, a: int): int = p + a * Q128 / l
  // price after taking quote out: rounded down (FAIL below zero)
  pure def nextQuoteOut(p: int, l: int, a: int): int = { pure val x = p - cdiv(a * Q128, l) if (x < 0) FAIL else x }
  // price after taking base out: rounded up (FAIL when the segment cannot give that much)
  pure def nextBaseOut(p: int, l: int, a: int): int =
    if (a == 0) p else { pure val d = l - a * p if (d <= 0) FAIL else cdiv(l * p, d) }

  pure def noWalk: Walk = { ok: false, amt: 0, price: 0, left: 0 }

  // Buy with quote: input needed per segment rounded up, output rounded down; never beyond `stop`.
  pure def buyIn(curve: List[Pt], cur: int, stop: int, amount: int): Walk = {
    pure val r = curve.foldl({ ok: true, done: false, cur: cur, left: amount, out: 0 }, (s, k) => {
      pure val ref = min(stop, k.p)
      if (s.done or ref <= s.cur) s
      else {
        pure val need = dQuote(s.cur, ref, k.l, true)
        if (s.left < need) {
          pure val nx = nextQuoteIn(s.cur, k.l, s.left)
          { ok: s.ok and nx <= U128, done: true, cur: nx, left: 0, out: s.out + dBase(s.cur, nx, k.l, false) }
        } else { ok: s.ok, done: ref == stop, cur: ref, left: s.left - need, out: s.out + dBase(s.cur, ref, k.l, false) }
      }
    })
    { ok: r.ok and r.out <= U64, amt: r.out, price: r.cur, left: r.left }
  }

  // Sell base: down the curve to the start price.
  pure def sellIn(curve: List[Pt], start: int, cur: int, amount: int): Walk = {
    pure val n = curve.length()
    pure val r = range(0, n - 1).foldl({ done: false, cur: cur, left: amount, out: 0 }, (s, j) => {
      pure val i = n - 2 - j
      pure val lo = curve[i].p
      pure val l = curve[i + 1].l
      if (s.done or lo >= s.cur) s
      else {
        pure val need = dBase(lo, s.cur, l, true)
        if (s.left < need) {
          pure val nx = nextBaseIn(s.cur, l, s.left)
          { done: true, cur: nx, left: 0, out: s.out + dQuote(nx, s.cur, l, false) }
        } else { done: false, cur: lo, left: s.left - need, out: s.out + dQuote(lo, s.cur, l, false) }
      }
    })
    pure val l0 = curve[0].l
    if (r.left == 0) { ok: r.out <= U64, amt: r.out, price: r.cur, left: 0 }
    else {
      pure val nx = nextBaseIn(r.cur, l0, r.left)
      if (nx < start) {
        pure val used = dBase(start, r.cur, l0, true)
        pure val out = r.out + dQuote(start, r.cur, l0, false)
        { ok: used <= r.left and out <= U64, amt: out, price: start, left: r.left - used }
      } else {
        pure val out = r.out + dQuote(nx, r.cur, l0, false)
        { ok: out <= U64, amt: out, price: nx, left: 0 }
      }
    }
  }

  // Input needed to take `amount` base tokens (amt = quote input).
  pure def buyOut(curve: List[Pt], cur: int, amount: int): Walk = {
    pure val r = curve.foldl({ ok: true, done: false, cur: cur, left: amount, inp: 0 }, (s, k) => {
      if (s.done or k.p <= s.cur or not(s.ok)) s
      else {
        pure val most = dBase(s.cur, k.p, k.l, false)
        if (s.left < most) {
          pure val nx = nextBaseOut(s.cur, k.l, s.left)
          if (nx == FAIL) { ok: false, done: true, cur: s.cur, left: s.left, inp: s.inp }
          else { ok: nx <= U128, done: true, cur: nx, left: 0, inp: s.inp + dQuote(s.cur, nx, k.l, true) }
        } else { ok: true, done: false, cur: k.p, left: s.left - most, inp: s.inp + dQuote(s.cur, k.p, k.l, true) }
      }
    })
    { ok: r.ok and r.left == 0 and r.inp <= U64, amt: r.inp, price: r.cur, left: r.left }
  }

  // Input needed to take `amount` quote tokens (amt = base input).
  pure def sellOut(curve: List[Pt], start: int, cur: int, amount: int): Walk = {
    pure val n = curve.length()
    pure val r = range(0, n - 1).foldl({ ok: true, done: false, cur: cur, left: amount, inp: 0 }, (s, j) => {
      pure val i = n - 2 - j
      pure val lo = curve[i].p
      pure val l = curve[i + 1].l
      if (s.done or lo >= s.cur) s
      else {
        pure val most = dQuote(lo, s.cur, l, false)
        if (s.left < most) {
          pure val nx = nextQuoteOut(s.cur, l, s.left)
          { ok: s.ok and nx > 0, done: true, cur: nx, left: 0, inp: if (nx > 0) s.inp + dBase(nx, s.cur, l, true) else s.inp }
        } else { ok: s.ok, done: false, cur: lo, left: s.left - most, inp: s.inp + dBase(lo, s.cur, l, true) }
      }
    })
    pure val l0 = curve[0].l
    if (not(r.ok)) noWalk
    else if (r.left == 0) { ok: r.inp <= U64, amt: r.inp, price: r.cur, left: 0 }
    else if (r.left > dQuote(start, r.cur, l0, false)) noWalk
    else {
      pure val nx = nextQuoteOut(r.cur, l0, r.left)
      if (nx < start) noWalk
      else {
        pure val inp = r.inp + dBase(nx, r.cur, l0, true)
        { ok: inp <= U64, amt: inp, price: nx, left: 0 }
      }
    }
  }

  // --- the exact real-valued curve, as fractions (num, den), for the "never more than the exact curve" statement
  type Frac = { n: int, d: int }
  pure def addF(a: Frac, b: Frac): Frac = { n: a.n * b.d + b.n * a.d, d: a.d * b.d }

  // exact base and quote amounts between two prices lo <= hi over all segments
  pure def exact(curve: List[Pt], start: int, lo: int, hi: int): { b: Frac, q: Frac } = {
    pure val r = curve.foldl({ from: start, b: { n: 0, d: 1 }, q: 0 }, (s, k) => {
      pure val x = max(lo, s.from)
      pure val y = min(hi, k.p)
      if (x >= y) { from: k.p, b: s.b, q: s.q }
      else { from: k.p, b: addF(s.b, { n: k.l * (y - x), d: x * y }), q: s.q + k.l * (y - x) }
    })
    { b: r.b, q: { n: r.q, d: Q128 } }
  }
  // integer x at least / at most the fraction
  pure def geF(x: int, f: Frac): bool = x * f.d >= f.n
  pure def leF(x: int, f: Frac): bool = x * f.d <= f.n
  pure def ceilF(f: Frac): int = cdiv(f.n, f.d)
  pure def floorF(f: Frac): int = f.n / f.d

  // --- quantities a configuration derives from its curve
  // base tokens sold between start and `upto`, each segment rounded up
  pure def baseForSwap(curve: List[Pt], start: int, upto: int): int = {
    curve.foldl({ lo: start, sum: 0, done: false }, (s, k) =>
      if (s.done) s
      else if (k.p > upto) { lo: k.p, sum: s.sum + dBase(s.lo, upto, k.l, true), done: true }
      else { lo: k.p, sum: s.sum + dBase(s.lo, k.p, k.l, true), done: false }).sum
  }

  // price at which `threshold` quote tokens have been paid in (FAIL: the curve cannot take that much)
  pure def thresholdPrice(curve: List[Pt], start: int, threshold: int): int = {
    pure val r = curve.foldl({ cur: start, left: threshold, done: false }, (s, k) =>
      if (s.done) s
      else {
        pure val most = dQuote(s.cur, k.p, k.l, true)
        if (most > s.left) { cur: nextQuoteIn(s.cur, k.l, s.left), left: 0, done: true }
        else { cur: k.p, left: s.left - most, done: false }
      })
    if (r.left != 0 or r.cur > U128) FAIL else r.cur
  }
}
