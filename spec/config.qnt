// Configurations: which parameters are acceptable, and what is derived from them.
module config {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"

  pure val DAY = 86400
  pure val TWO_YEARS = 63072000
  pure val MIN_CREATION = 1000000
  pure val MAX_CREATION = 100000000000
  pure val DEAD = 1844674407370955161600            // liquidity a compounding pool keeps for itself: 100 * 2^64
  pure val LMF_BPS = 20                             // protocol's share of what migrates
  pure val feeOptions = [25, 30, 100, 200, 400, 600]
  pure val CUSTOM = 6

  // ---- liquidity vesting as the v2 venue is told about it
  type VestP = { ok: bool, cliffPoint: int, per: int, cliffLiq: int, freq: int, n: int }
  pure def vestParams(v: Vest, totalLiq: int, ts: int): VestP = {
    pure val after = totalLiq * (v.bps * v.n) / BPS
    pure val per = if (v.n > 0) after / v.n else 0
    pure val n = if (per == 0) 0 else v.n
    pure val cliff = if (per == 0) max(v.cliff, 1) else v.cliff
    { ok: v.bps * v.n <= U16 and per * n <= totalLiq, cliffPoint: ts + cliff, per: per, cliffLiq: totalLiq - per * n,
      freq: if (per == 0) 0 else v.freq, n: n }
  }
  pure def vestIsZero(v: Vest): bool = v.pct == 0 and v.bps == 0 and v.n == 0 and v.freq == 0 and v.cliff == 0
  pure def vestOk(v: Vest, ts: int): bool =
    vestIsZero(v) or {
      pure val x = vestParams(v, U128 * v.pct / 100, ts)
      and {
        x.ok,
        x.cliffPoint == ts implies x.n > 0,
        x.n > 0 implies (x.freq > 0 and x.per > 0),
        x.cliffPoint - ts + x.freq * x.n <= TWO_YEARS,
        x.cliffLiq + x.per * x.n > 0
      }
    }
  // hundredths of a percent of all liquidity still locked `secs` after the migration
  pure def vestLockedBps(v: Vest, secs: int): int =
    if (vestIsZero(v)) 0
    else {
      pure val every = U128 * v.pct / 100
      pure val x = vestParams(v, every, 0)
      pure val free =
        if (secs < x.cliffPoint) 0
        else if (x.freq == 0) x.cliffLiq
        else x.cliffLiq + min((secs - x.cliffPoint) / x.freq, x.n) * x.per
      (every - free) * BPS / U128
    }

  // ---- base fee
  pure def baseFeeOk(f: Base, collect: int, actType: int): bool =
    if (f.bmode == LINEAR or f.bmode == EXPONENTIAL) {
      pure val least = minScheduled(f)
      and {
        (f.f1 == 0 and f.f2 == 0 and f.f3 == 0) or (f.f1 != 0 and f.f2 != 0 and f.f3 != 0),
        least != FAIL and least >= MIN_NUM,
        f.cliff <= MAX_NUM
      }
    } else if (f.bmode == LIMITER) and {
      collect == 0,
      f.cliff >= MIN_NUM and f.cliff <= MAX_NUM,
      limZero(f) or and {
        f.f1 != 0 and f.f2 != 0 and f.f3 != 0,
        f.f2 <= (if (actType == 0) 108000 else 43200),
        bpsToNum(f.f1) < DEN,
        // the lowest and the highest rate that can be charged
        limRateIncl(f, 0) >= MIN_NUM,
        limRateIncl(f, U64) != FAIL and limRateIncl(f, U64) <= MAX_NUM
      }
    } else false
  pure def dynOk(d: Dyn): bool =
    d.bin == 1 and d.binQ == 1844674407370955 and d.filter < d.decay and d.red <= BPS and d.vfc <= U24 and d.maxVol <= U24

  // ---- fee of the migrated pool
  pure def migratedNone(p: Params): bool =
    p.mCollect == 0 and p.mDyn == 0 and p.mFeeBps == 0 and p.mComp == 0 and p.mBaseMode == 0
      and p.mSched.n == 0 and p.mSched.step == 0 and p.mSched.expiry == 0 and p.mSched.red == 0
  // lowest base fee of a market-cap schedule: mode 3 linear, 4 exponential
  pure def marketMin(bps: int, bmode: int, s: MSched): int =
    scheduled({ cliff: bpsToNum(bps), bmode: bmode - 3, f1: s.n, f2: 1, f3: s.red }, s.n)
  pure def migratedOk(p: Params): bool = and {
    p.mFeeBps >= 10 and p.mFeeBps <= 1000,
    p.mCollect <= 2,
    if (p.mCollect == 2) p.mComp > 0 and p.mComp <= BPS else p.mComp == 0,
    p.mDyn <= 1,
    if (p.mBaseMode <= 1) p.mSched.n == 0 and p.mSched.step == 0 and p.mSched.expiry == 0 and p.mSched.red == 0
    else if (p.mBaseMode == 3 or p.mBaseMode == 4) and {
      p.mSched.n > 0 and p.mSched.step > 0 and p.mSched.expiry > 0 and p.mSched.red > 0,
      marketMin(p.mFeeBps, p.mBaseMode, p.mSched) >= 100000
    } else false
  }

  // ---- derived amounts
  // of the threshold, what goes into the migrated pool; the rest is the migration fee
  pure def migQuoteAmount(threshold: int, feePct: int): int = cdiv(threshold * (100 - feePct), 100)
  pure def compounding(migOpt: int, mCollect: int): bool = migOpt == 0 or mCollect == 2
  // liquidity of a full-range position worth `quote` below / `base` above the price
  pure def liqFromQuote(quote: int, price: int): int = quote * Q128 / (price - MIN_SQRT)
  pure def liqFromBase(base: int, price: int): int = base * price * MAX_SQRT / (MAX_SQRT - price)
  pure def migBaseAmount(comp: bool, quote: int, price: int): int =
    if (comp) cdiv(quote * Q128, price * price)
    else if (price <= MIN_SQRT) FAIL
    else { pure val l = liqFromQuote(quote, price) if (l > U128) FAIL else dBase(price, MAX_SQRT, l, true) }
  // price and liquidity with which a compounding pool opens
  pure def compPrice(base: int, quote: int): int = isqrt(cdiv(quote * Q128, base))
  pure def compLiq(base: int, quote: int): int = base * isqrt(quote * Q128 / base)
  pure def compOk(base: int, quote: int, price: int): bool =
    base > 0 and {
      pure val p = compPrice(base, quote)
      pure val l = compLiq(base, quote)
      and {
        p >= MIN_SQRT and p <= MAX_SQRT,
        l <= U128 and l > DEAD,
        abs(price - p) * 100 <= max(price, p)
      }
    }
  pure def vestTotal(v: LockVest): int = v.cliffAmt + v.per * v.n
  pure def vestNone(v: LockVest): bool = v.per == 0 and v.cliffDur == 0 and v.freq == 0 and v.n == 0 and v.cliffAmt == 0
  // tokens put aside for the curve: 25% more than needed, but no more than the whole curve can sell
  pure def withBuffer(curve: List[Pt], start: int, swapBase: int): int =
    min(swapBase + swapBase * 25 / 100, baseForSwap(curve, start, MAX_SQRT))
  pure def supplyOf(c: Cfg): int =
    if (c.fixedSupply == 1) c.preSupply else withBuffer(c.curve, c.start, c.swapBase) + c.migBase + vestTotal(c.lv)

  type Derived = { price: int, swapBase: int, migBase: int }
  pure def derive(p: Params): Derived = {
    pure val price = thresholdPrice(p.curve, p.start, p.migQuote)
    if (price == FAIL) { price: FAIL, swapBase: FAIL, migBase: FAIL }
    else {
      price: price,
      swapBase: baseForSwap(p.curve, p.start, price),
      migBase: migBaseAmount(compounding(p.migOpt, p.mCollect), migQuoteAmount(p.migQuote, p.migFeePct), price)
    }
  }

  pure def curveOk(p: Params): bool = {
    pure val n = p.curve.length()
    and {
      p.start >= MIN_SQRT and p.start < MAX_SQRT,
      n > 0 and n <= 16,
      p.curve.foldl({ ok: true, at: p.start }, (s, k) => { ok: s.ok and k.p > s.at and k.l > 0, at: k.p }).ok,
      if (n > 0) p.curve[n - 1].p <= MAX_SQRT else false
    }
  }

  // everything that can be judged parameter by parameter, without the curve's derived values
  pure def flatFaults(p: Params, ts: int, quoteKind: int): Set[str] = {
    pure val v1 = p.migOpt == 0
    pure val every = p.pLiq + p.pPerm + p.cLiq + p.cPerm + p.pv.pct + p.cv.pct
    Set(
      (quoteKind != 3, "unsupported quote mint"),
      (p.actType <= 1, "activation type"),
      (baseFeeOk(p.base, p.collect, p.actType), "base fee"),
      (not(p.hasDyn) or dynOk(p.dyn), "dynamic fee"),
      (p.creatorPct <= 100, "creator share"),
      (p.migFeePct <= 99 and p.creatorMigPct <= (if (p.migFeePct == 0) 0 else 100), "migration fee"),
      (p.collect <= 1, "collect mode"),
      (p.migOpt <= 1, "migration option"),
      (p.migFeeOpt <= CUSTOM, "migration fee option"),
      (p.tokenType <= 1, "token type"),
      (not(v1) or p.tokenType == 0, "v1 needs an SPL token"),
      (not(v1) or quoteKind < 2, "v1 needs an SPL quote token"),
      (not(v1) or (p.migFeeOpt != CUSTOM and migratedNone(p)), "v1 has fixed fees"),
      (not(v1) or (vestIsZero(p.pv) and vestIsZero(p.cv)), "v1 has no vesting"),
      (v1 or p.migFeeOpt > CUSTOM or (if (p.migFeeOpt == CUSTOM) migratedOk(p) else migratedNone(p)), "migrated pool fee"),
      (v1 or (vestOk(p.pv, ts) and vestOk(p.cv, ts)), "liquidity vesting"),
      (p.tokAuth <= 4, "token authority"),
      (p.decimals >= 6 and p.decimals <= 9, "decimals"),
      (every == 100, "liquidity percentages"),
      (p.migQuote > 0, "threshold"),
      (vestNone(p.lv) or (p.lv.freq != 0 and fits(vestTotal(p.lv), U64) and vestTotal(p.lv) != 0), "locked vesting"),
      (p.creationFee == 0 or (p.creationFee >= MIN_CREATION and p.creationFee <= MAX_CREATION), "creation fee"),
      (curveOk(p), "curve")
    ).filter(x => not(x._1)).map(x => x._2)
  }
  pure def derivedFaults(p: Params): Set[str] = {
    pure val d = derive(p)
    if (d.price == FAIL) Set("threshold not reachable")
    else if (d.price >= MAX_SQRT) Set("migration price")
    else if (not(fits(d.swapBase, U64)) or d.swapBase == 0) Set("base amount on the curve")
    else if (not(fits(d.migBase, U64)) or d.migBase == 0) Set("migration base amount")
    else {
      pure val quote = migQuoteAmount(p.migQuote, p.migFeePct)
      pure val b = d.migBase - d.migBase * LMF_BPS / BPS
      pure val q = quote - quote * LMF_BPS / BPS
      pure val buffered = withBuffer(p.curve, p.start, d.swapBase)
      pure val rest = d.migBase + vestTotal(p.lv)
      Set(
        (p.migOpt == 0 or p.mCollect != 2 or compOk(b, q, d.price), "opening price"),
        (not(p.hasSupply) or p.leftoverTo != "none", "leftover receiver"),
        (not(p.hasSupply) or (fits(buffered, U64) and fits(buffered + rest, U64) and d.swapBase + rest <= p.postSupply
          and p.postSupply <= p.preSupply and buffered + rest <= p.preSupply), "supply"),
        (vestLockedBps(p.pv, DAY) + vestLockedBps(p.cv, DAY) + (p.pPerm + p.cPerm) * 100 >= 1000, "locked liquidity")
      ).filter(x => not(x._1)).map(x => x._2)
    }
  }
  pure def faults(p: Params, ts: int, quoteKind: int): Set[str] = {
    pure val flat = flatFaults(p, ts, quoteKind)
    if (flat != Set()) flat else derivedFaults(p)
  }

  pure def noDyn: Dyn = { on: false, bin: 0, binQ: 0, filter: 0, decay: 0, red: 0, maxVol: 0, vfc: 0 }
  pure def mkCfg(p: Params, quoteKind: int): Cfg = {
    pure val d = derive(p)
    {
      id: "cfg", quoteMint: p.quote, partner: p.partner, leftoverTo: p.leftoverTo,
      base: p.base, dyn: if (p.hasDyn) { ...p.dyn, on: true } else noDyn,
      pv: { ...p.pv, on: not(vestIsZero(p.pv)) }, cv: { ...p.cv, on: not(vestIsZero(p.cv)) },
      collect: p.collect, migOpt: p.migOpt, actType: p.actType, decimals: p.decimals, tokenType: p.tokenType,
      quoteFlag: if (quoteKind >= 2) 1 else 0,
      pPerm: p.pPerm, pLiq: p.pLiq, cPerm: p.cPerm, cLiq: p.cLiq,
      migFeeOpt: p.migFeeOpt, fixedSupply: b2i(p.hasSupply), creatorPct: p.creatorPct, tokAuth: p.tokAuth,
      migFeePct: p.migFeePct, creatorMigPct: p.creatorMigPct,
      swapBase: d.swapBase, migQuote: p.migQuote, migBase: d.migBase, migPrice: d.price,
      lv: p.lv, preSupply: if (p.hasSupply) p.preSupply else 0, postSupply: if (p.hasSupply) p.postSupply else 0,
      mCollect: p.mCollect, mDyn: p.mDyn, mFeeBps: p.mFeeBps, mBaseMode: p.mBaseMode, mComp: p.mComp, mSched: p.mSched,
      firstMin: b2i(p.firstMin), creationFee: p.creationFee, start: p.start, curve: p.curve
    }
  }
}
