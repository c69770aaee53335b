// What a migration moves, opens, locks and burns: amounts only; the steps are in step.qnt.
module migrate {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import config.* from "./config"

  // base tokens in the vault that are not unclaimed trading fees
  pure def baseFees(p: Pool): int = p.protB + p.partB + p.creB
  pure def quoteFees(p: Pool): int = p.protQ + p.partQ + p.creQ

  // of `left` base tokens left behind, those that are burned
  pure def burnable(c: Cfg, left: int): int = if (c.fixedSupply == 1) min(c.preSupply - c.postSupply, left) else left

  // liquidity (or LP tokens) of one owner
  type Part = { free: int, perm: int, vest: int, permPct: int, v: Vest }
  pure def partTotal(x: Part): int = x.free + x.perm + x.vest
  type Parts = { partner: Part, creator: Part }
  // each part rounded down, the rounding dust is the creator's
  pure def parts(c: Cfg, total: int): Parts = {
    pure val pf = pct(total, c.pLiq)
    pure val pp = pct(total, c.pPerm)
    pure val pvv = pct(total, c.pv.pct)
    pure val cp = pct(total, c.cPerm)
    pure val cvv = pct(total, c.cv.pct)
    {
      partner: { free: pf, perm: pp, vest: pvv, permPct: c.pPerm, v: c.pv },
      creator: { free: total - pf - pp - pvv - cp - cvv, perm: cp, vest: cvv, permPct: c.cPerm, v: c.cv }
    }
  }
  // a part that ends up with `total` instead of what was planned for it
  pure def adjusted(x: Part, total: int): Part = {
    pure val locked = x.v.pct + x.permPct
    if (locked == 0) { ...x, free: total, perm: 0, vest: 0 }
    else {
      pure val free = min(total, x.free)
      pure val vest = (total - free) * x.v.pct / locked
      { ...x, free: free, perm: total - free - vest, vest: vest }
    }
  }

  pure def isComp(c: Cfg): bool = compounding(c.migOpt, c.mCollect)

  // what goes towards the migrated pool before and after the protocol's share
  type Stake = { ok: bool, base: int, quote: int, protB: int, protQ: int }
  pure def stake(c: Cfg, p: Pool, vaultBase: int): Stake = {
    pure val free = vaultBase - baseFees(p)
    pure val quote = migQuoteAmount(c.migQuote, c.migFeePct)
    pure val base = if (isComp(c)) c.migBase else free
    pure val protQ = quote * p.lmfBps / BPS
    pure val protB =
      if (isComp(c)) base * p.lmfBps / BPS
      else dBase(c.migPrice, MAX_SQRT, liqFromQuote(protQ, c.migPrice), false)
    { ok: free >= 0 and free >= base and base >= protB, base: base, quote: quote, protB: protB, protQ: protQ }
  }

  // ---- DAMM v2: how much each venue operation takes
  pure def openTakes(comp: bool, l: int, price: int): { a: int, b: int } =
    if (comp) { a: cdiv(l, price), b: cdiv(l * price, Q128) }
    else { a: dBase(price, MAX_SQRT, l, true), b: cdiv(l * (price - MIN_SQRT), Q128) }
  pure def addTakes(comp: bool, l: int, price: int, ra: int, rb: int, tot: int): { a: int, b: int } =
    if (comp) { a: cdiv(ra * l, tot), b: cdiv(rb * l, tot) } else openTakes(false, l, price)

  type Plan2 = {
    ok: bool, stake: Stake, price: int, partnerFirst: bool,
    p1: Part, dead: int, l1: int, a1: int, b1: int,
    p2: Part, l2: int, a2: int, b2: int,
    burn: int
  }
  pure def plan2(c: Cfg, p: Pool, vaultBase: int): Plan2 = {
    pure val st = stake(c, p, vaultBase)
    pure val base = st.base - st.protB
    pure val quote = st.quote - st.protQ
    pure val comp = isComp(c)
    pure val price = if (comp) compPrice(base, quote) else c.migPrice
    pure val whole = if (comp) compLiq(base, quote) else min(liqFromBase(base, price), liqFromQuote(quote, price))
    pure val dead = if (comp) DEAD else 0
    pure val d = parts(c, whole - dead)
    pure val partnerFirst = partTotal(d.partner) > partTotal(d.creator)
    pure val first = if (partnerFirst) d.partner else d.creator
    pure val second = if (partnerFirst) d.creator else d.partner
    pure val l1 = partTotal(first) + dead
    pure val t1 = openTakes(comp, l1, price)
    pure val restB = base - t1.a
    pure val restQ = quote - t1.b
    pure val l2 =
      if (comp) min(restB * l1 / t1.a, restQ * l1 / t1.b)
      else min(liqFromBase(restB, price), liqFromQuote(restQ, price))
    pure val t2 = addTakes(comp, l2, price, t1.a, t1.b, l1)
    pure val keep = baseFees(p) + st.protB
    pure val a2 = if (l2 > 0) t2.a else 0
    pure val b2 = if (l2 > 0) t2.b else 0
    pure val left = vaultBase - t1.a - a2 - keep
    {
      ok: restB >= 0 and restQ >= 0 and left >= 0, stake: st, price: price, partnerFirst: partnerFirst,
      p1: first, dead: dead, l1: l1, a1: t1.a, b1: t1.b,
      p2: adjusted(second, l2), l2: l2, a2: a2, b2: b2,
      burn: burnable(c, left)
    }
  }
}
