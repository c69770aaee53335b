// Trading fees: base fee (schedules and the anti-sniper rate limiter), dynamic fee and the split of collected fees.
module fees {
  import num.* from "./num"

  pure val DEN = 1000000000          // fee denominator
  pure val MAX_NUM = 990000000       // 99%
  pure val MIN_NUM = 2500000         // 0.25%
  pure val BPS = 10000

  pure val LINEAR = 0
  pure val EXPONENTIAL = 1
  pure val LIMITER = 2

  pure val BUY = 1                   // quote to base
  pure val SELL = 0                  // base to quote

  // cliff: starting rate; bmode: kind; f1, f2, f3: its parameters
  type Base = { cliff: int, bmode: int, f1: int, f2: int, f3: int }
  type Dyn = { on: bool, bin: int, binQ: int, filter: int, decay: int, red: int, maxVol: int, vfc: int }
  type Vol = { last: int, refp: int, acc: int, vref: int }

  pure def bpsToNum(b: int): int = b * DEN / BPS

  // ---- schedules: f1 periods of f2 points each, reduced by f3 per period
  pure def scheduled(f: Base, periods: int): int = {
    pure val k = min(periods, f.f1)
    if (f.bmode == LINEAR) { pure val x = f.cliff - f.f3 * k if (x < 0) FAIL else x }
    else {
      pure val b = Q64 - f.f3 * Q64 / BPS
      if (b < 0) FAIL else { pure val r = powQ64(b, k) if (r == FAIL) FAIL else r * f.cliff / Q64 }
    }
  }
  pure def minScheduled(f: Base): int = scheduled(f, f.f1)
  pure def baseAt(f: Base, now: int, start: int): int =
    if (f.f2 == 0) f.cliff
    else if (now < start) FAIL
    else scheduled(f, (now - start) / f.f2)

  // ---- rate limiter: f1 increment in bps, f2 duration, f3 reference amount
  pure def limZero(f: Base): bool = f.f1 == 0 and f.f2 == 0 and f.f3 == 0
  // is the limiter in force for this trade at all?
  pure def limApplies(f: Base, now: int, start: int, dir: int): bool =
    f.bmode == LIMITER and not(limZero(f)) and dir == BUY and now <= start + f.f2
  pure def limMaxIndex(f: Base): int = (MAX_NUM - f.cliff) / bpsToNum(f.f1)

  // exact fee (in tokens, rounded up once) of a fee-inclusive amount: x0 at the cliff rate, each further x0 one
  // increment higher, everything above the last step at the maximum rate
  pure def limFee(f: Base, amount: int): int = {
    pure val c = f.cliff
    pure val i = bpsToNum(f.f1)
    pure val x0 = f.f3
    pure val m = limMaxIndex(f)
    pure val a = (amount - x0) / x0
    pure val b = (amount - x0) % x0
    pure val raw =
      if (a < m) x0 * (c + c * a + i * a * (a + 1) / 2) + b * (c + i * (a + 1))
      else x0 * (c + c * m + i * m * (m + 1) / 2) + ((a - m) * x0 + b) * MAX_NUM
    cdiv(raw, DEN)
  }
  // the rate a fee-inclusive amount pays
  pure def limRateIncl(f: Base, amount: int): int =
    if (amount <= f.f3) f.cliff
    else { pure val fee = limFee(f, amount) if (fee > U64) FAIL else cdiv(fee * DEN, amount) }
  pure def exclOf(rate: int, amount: int): int = amount - cdiv(amount * rate, DEN)
  pure def limExcl(f: Base, amount: int): int = exclOf(limRateIncl(f, amount), amount)
  // the rate that a fee-exclusive amount pays: invert the piecewise fee (closed form for the stepped part)
  pure def limRateExcl(f: Base, excl: int): int = {
    if (excl <= limExcl(f, f.f3)) f.cliff
    else {
      pure val i = bpsToNum(f.f1)
      pure val x0 = f.f3
      pure val top = (limMaxIndex(f) + 1) * x0
      pure val over = top > U64
      pure val topIncl = if (over) U64 else top
      pure val topExcl = limExcl(f, topIncl)
      if (excl == topExcl) limRateIncl(f, topIncl)
      else {
        pure val incl =
          if (excl < topExcl) {
            pure val y = 2 * DEN * x0 + i * x0 - 2 * f.cliff * x0
            pure val z = 2 * excl * DEN * x0
            pure val disc = y * y - 4 * i * z
            if (disc < 0) FAIL
            else {
              pure val g = (y - isqrt(disc)) / (2 * i)
              pure val steps = g / x0
              pure val rest = excl - limExcl(f, g)
              pure val rate = f.cliff + i * steps
              if (g > U64 or rest < 0 or rate >= DEN) FAIL else g + cdiv(rest * DEN, DEN - rate)
            }
          } else if (over) FAIL
          else topIncl + cdiv((excl - topExcl) * DEN, DEN - MAX_NUM)
        if (incl == FAIL or incl > U64 or incl < excl) FAIL
        else { pure val r = cdiv((incl - excl) * DEN, incl) if (r < f.cliff) FAIL else r }
      }
    }
  }

  // ---- base rate of a trade
  pure def baseIncl(f: Base, now: int, start: int, dir: int, amount: int): int =
    if (f.bmode != LIMITER) baseAt(f, now, start)
    else if (limApplies(f, now, start, dir)) limRateIncl(f, amount)
    else f.cliff
  pure def baseExcl(f: Base, now: int, start: int, dir: int, amount: int): int =
    if (f.bmode != LIMITER) baseAt(f, now, start)
    else if (limApplies(f, now, start, dir)) limRateExcl(f, amount)
    else f.cliff
  // rate granted to the eligible first swap
  pure def baseMin(f: Base): int = if (f.bmode == LIMITER) f.cliff else minScheduled(f)

  // ---- dynamic rate
  pure def dynRate(d: Dyn, v: Vol): int =
    if (not(d.on)) 0 else cdiv((v.acc * d.bin) * (v.acc * d.bin) * d.vfc, 100000000000)
  pure def total(d: Dyn, v: Vol, base: int): int = if (base == FAIL) FAIL else min(base + dynRate(d, v), MAX_NUM)

  // distance of two prices in bins (twice the sqrt-price distance)
  pure def bins(d: Dyn, a: int, b: int): int = 2 * (((max(a, b) * Q64 / min(a, b)) - Q64) / d.binQ)
  // before a trade: after the filter period the reference price moves here, carrying over a reduced volatility
  // while still inside the decay period
  pure def refresh(d: Dyn, v: Vol, price: int, ts: int): Vol = {
    pure val el = max(ts - v.last, 0)
    if (not(d.on) or el < d.filter) v
    else { ...v, refp: price, vref: if (el < d.decay) v.acc * d.red / BPS else 0 }
  }
  // after a trade: distance from the reference, capped; the clock is touched only when a bin was crossed
  pure def advance(d: Dyn, v: Vol, old: int, new: int, ts: int): Vol =
    if (not(d.on)) v
    else {
      last: if (bins(d, old, new) > 0) ts else v.last,
      refp: v.refp,
      acc: min(v.vref + bins(d, new, v.refp) * BPS, d.maxVol),
      vref: v.vref
    }

  // ---- fee of an amount and its split
  pure def feeOf(rate: int, incl: int): int = cdiv(incl * rate, DEN)
  pure def inclOf(rate: int, excl: int): int = cdiv(excl * DEN, DEN - rate)
  type Split = { trade: int, prot: int, ref: int }
  pure def split(fee: int, referral: bool): Split = {
    pure val p = pct(fee, 20)
    pure val r = if (referral) pct(p, 20) else 0
    { trade: fee - p, prot: p - r, ref: r }
  }
}
