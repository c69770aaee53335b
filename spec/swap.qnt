// One trade against the curve, without token movement: amounts, fees and price.
module swap {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"

  pure val EXACT_IN = 0
  pure val PARTIAL = 1
  pure val EXACT_OUT = 2

  type Trade = { ok: bool, incl: int, excl: int, left: int, out: int, price: int, fee: int, rate: int, sp: Split }
  pure val noTrade: Trade =
    { ok: false, incl: 0, excl: 0, left: 0, out: 0, price: 0, fee: 0, rate: 0, sp: { trade: 0, prot: 0, ref: 0 } }

  // fees are taken from the input only when buying while collecting in quote
  pure def onInput(c: Cfg, dir: int): bool = c.collect == 0 and dir == BUY
  // fees are base tokens only when buying while collecting in the output token
  pure def inBase(c: Cfg, dir: int): bool = c.collect == 1 and dir == BUY
  pure def point(c: Cfg, slot: int, ts: int): int = if (c.actType == 0) slot else ts

  pure def walkIn(c: Cfg, price: int, dir: int, amount: int): Walk =
    if (dir == BUY) buyIn(c.curve, price, c.migPrice, amount) else sellIn(c.curve, c.start, price, amount)
  pure def walkOut(c: Cfg, price: int, dir: int, amount: int): Walk =
    if (dir == BUY) buyOut(c.curve, price, amount) else sellOut(c.curve, c.start, price, amount)

  pure def rateIncl(c: Cfg, p: Pool, v: Vol, now: int, dir: int, amount: int, first: bool): int =
    if (first) baseMin(c.base) else total(c.dyn, v, baseIncl(c.base, now, p.act, dir, amount))
  pure def rateExcl(c: Cfg, p: Pool, v: Vol, now: int, dir: int, amount: int, first: bool): int =
    if (first) baseMin(c.base) else total(c.dyn, v, baseExcl(c.base, now, p.act, dir, amount))

  // exact input and partial fill
  pure def tradeIn(c: Cfg, p: Pool, v: Vol, now: int, dir: int, amount: int, ref: bool, first: bool, partial: bool): Trade = {
    pure val rate = rateIncl(c, p, v, now, dir, amount, first)
    if (rate == FAIL) noTrade
    else if (onInput(c, dir)) {
      pure val fee = feeOf(rate, amount)
      pure val w = walkIn(c, p.price, dir, amount - fee)
      if (not(w.ok)) noTrade
      else if (w.left == 0)
        { ok: true, incl: amount, excl: amount - fee, left: 0, out: w.amt, price: w.price, fee: fee, rate: rate, sp: split(fee, ref) }
      else if (not(partial)) noTrade
      else {
        pure val excl = amount - fee - w.left
        pure val rate2 = rateExcl(c, p, v, now, dir, excl, first)
        if (rate2 == FAIL) noTrade
        else {
          // the rounding of the limiter's inverse is not at the trader's expense
          pure val most = inclOf(rate2, excl)
          pure val incl = min(amount, most)
          { ok: most <= U64, incl: incl, excl: excl, left: w.left, out: w.amt, price: w.price, fee: incl - excl, rate: rate2, sp: split(incl - excl, ref) }
        }
      }
    } else {
      pure val w = walkIn(c, p.price, dir, amount)
      if (not(w.ok) or (w.left != 0 and not(partial))) noTrade
      else {
        pure val fee = feeOf(rate, w.amt)
        { ok: true, incl: amount - w.left, excl: amount - w.left, left: w.left, out: w.amt - fee, price: w.price, fee: fee, rate: rate, sp: split(fee, ref) }
      }
    }
  }

  pure def tradeOut(c: Cfg, p: Pool, v: Vol, now: int, dir: int, amount: int, ref: bool, first: bool): Trade =
    if (onInput(c, dir)) {
      pure val w = walkOut(c, p.price, dir, amount)
      if (not(w.ok) or w.price > c.migPrice) noTrade
      else {
        pure val rate = rateExcl(c, p, v, now, dir, w.amt, first)
        if (rate == FAIL) noTrade
        else {
          pure val incl = inclOf(rate, w.amt)
          { ok: incl <= U64, incl: incl, excl: w.amt, left: 0, out: amount, price: w.price, fee: incl - w.amt, rate: rate, sp: split(incl - w.amt, ref) }
        }
      }
    } else {
      pure val rate = rateExcl(c, p, v, now, dir, amount, first)
      if (rate == FAIL) noTrade
      else {
        pure val gross = inclOf(rate, amount)
        pure val w = walkOut(c, p.price, dir, gross)
        if (gross > U64 or not(w.ok) or w.price > c.migPrice) noTrade
        else { ok: true, incl: w.amt, excl: w.amt, left: 0, out: amount, price: w.price, fee: gross - amount, rate: rate, sp: split(gross - amount, ref) }
      }
    }

  pure def trade(c: Cfg, p: Pool, v: Vol, now: int, dir: int, mode: int, amount: int, ref: bool, first: bool): Trade =
    if (mode == EXACT_OUT) tradeOut(c, p, v, now, dir, amount, ref, first)
    else tradeIn(c, p, v, now, dir, amount, ref, first, mode == PARTIAL)

  // gross tokens leaving the curve (output plus the fee when it is taken from the output)
  pure def gross(c: Cfg, dir: int, t: Trade): int = if (onInput(c, dir)) t.out else t.out + t.fee
}
