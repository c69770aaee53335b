// Generated configurations: acceptable ones over the whole parameter space, and ones just outside of it.
module genp {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import config.* from "./config"
  import rnd.* from "./rnd"

  // what a check concentrates on
  type Prof = {
    fee: int,          // base fee: 0 fixed, 1 schedule, 2 limiter, -1 any
    dyn: int,          // chance (%) of a dynamic fee
    first: int,        // chance of the discounted first swap, and of a swap bundled with the creation
    venue: int,        // 0 v1, 1 v2, -1 any
    collect: int,      // fee collection mode, -1 any
    fixed: int,        // chance of a fixed supply
    lock: int,         // chance of locked vesting
    bad: int,          // chance of a configuration with a changed parameter
    focus: Set[str],   // instructions preferred
    attack: int,       // chance of an account substitution
    pace: int,         // chance per step to push the curve towards completion
    multi: int,        // chance of a transaction with several instructions
    stop: int,         // chance per step to end the history once the curve is complete
    end: int,          // from which transaction on the launch is brought to its end and nothing else done, -1 never
    sys: int           // from where to go through all arrangements of a transaction's instructions, -1 not at all
  }

  pure val noVest: Vest = { on: false, pct: 0, bps: 0, n: 0, freq: 0, cliff: 0 }
  pure val noLock: LockVest = { per: 0, cliffDur: 0, freq: 0, n: 0, cliffAmt: 0 }
  pure val noMSched: MSched = { n: 0, step: 0, expiry: 0, red: 0 }
  pure val MOST = 3000000000000000000

  type Cap = { lo: int, sum: int, sums: List[int] }
  pure def capacity(start: int, curve: List[Pt]): Cap =
    curve.foldl({ lo: start, sum: 0, sums: [] }, (s, k) => {
      pure val q = s.sum + dQuote(s.lo, k.p, k.l, true)
      { lo: k.p, sum: q, sums: s.sums.append(q) }
    })

  pure def drawCurve(s: int, start: int, n: int, quote: int): List[Pt] =
    range(0, n).foldl({ lo: start, c: [] }, (a, i) => {
      if (a.lo >= MAX_SQRT) a
      else {
        pure val k = 1000 + i * 10
        pure val hi0 = if (chance(s, k, 5)) a.lo + 1 + pick(s, k + 1, 1000)
          else if (chance(s, k, 5) and i == n - 1) MAX_SQRT
          else a.lo + a.lo * logU(s, k + 2, 1, 4096) / 1024 + 1
        pure val hi = min(hi0, MAX_SQRT)
        pure val q = max(1, quote * (1 + pick(s, k + 3, 100)) / (50 * n))
        pure val l = if (chance(s, k + 4, 4)) logU(s, k + 5, 1, U128) else clamp(q * Q128 / (hi - a.lo), 1, U128)
        { lo: hi, c: a.c.append({ p: hi, l: l }) }
      }
    }).c

  pure def drawBase(s: int, kind: int, thr: int): Base =
    if (kind == 1) {
      if (chance(s, 1, 50)) {
        pure val cliff = logU(s, 2, MIN_NUM + 1, MAX_NUM)
        pure val n = if (chance(s, 3, 70)) between(s, 4, 1, 20) else logU(s, 5, 1, U16)
        pure val room = (cliff - MIN_NUM) / n
        { cliff: cliff, bmode: LINEAR, f1: n, f2: logU(s, 6, 1, 1000), f3: if (chance(s, 7, 30)) max(room, 1) else logU(s, 8, 1, max(room, 1)) }
      } else {
        pure val n = if (chance(s, 3, 60)) between(s, 4, 1, 20) else if (chance(s, 9, 55)) logU(s, 5, 1, 1000) else logU(s, 5, 1000, 59000)
        { cliff: between(s, 2, MAX_NUM / 4, MAX_NUM), bmode: EXPONENTIAL, f1: n, f2: logU(s, 6, 1, 1000), f3: logU(s, 8, 1, max(1, min(9000, 45000 / n))) }
      }
    } else if (kind == 2) {
      pure val cliff = if (chance(s, 1, 70)) logU(s, 2, MIN_NUM, 100000000) else between(s, 3, MIN_NUM, MAX_NUM)
      { cliff: cliff, bmode: LIMITER, f1: logU(s, 4, 1, 9900), f2: logU(s, 5, 1, 20000), f3: logU(s, 6, max(1, thr / 3000), max(1, thr)) }
    } else {
      cliff: if (chance(s, 1, 10)) MAX_NUM else if (chance(s, 1, 20)) MIN_NUM else logU(s, 2, MIN_NUM, MAX_NUM),
      bmode: if (chance(s, 3, 60)) LINEAR else EXPONENTIAL, f1: 0, f2: 0, f3: 0
    }

  pure def drawVest(s: int, p: int): Vest =
    if (p == 0) noVest
    else {
      pure val n = if (chance(s, 1, 25)) 0 else if (chance(s, 2, 80)) between(s, 3, 1, 12) else logU(s, 4, 1, 5000)
      pure val bps = if (n == 0) 0 else if (chance(s, 5, 40)) BPS / n else between(s, 6, 1, max(1, BPS / n))
      pure val freq = if (n == 0) 0 else logU(s, 7, 1, max(1, TWO_YEARS / 2 / n))
      { on: false, pct: p, bps: bps, n: n, freq: freq, cliff: if (chance(s, 8, 30)) 0 else logU(s, 9, 1, TWO_YEARS / 2) }
    }

  pure def drawLock(s: int, swapBase: int): LockVest = {
    pure val n = if (chance(s, 1, 30)) 0 else logU(s, 2, 1, 1000)
    pure val cliff = if (chance(s, 3, 30) and n > 0) 0 else logU(s, 4, 1, max(1, swapBase / 2))
    { per: if (n == 0) 0 else logU(s, 5, 1, max(1, swapBase / 2 / n)), cliffDur: if (chance(s, 6, 30)) 0 else if (chance(s, 9, 10)) logU(s, 7, 1, U64) else if (chance(s, 10, 4)) choose(s, 7, [U64, U64 - 1, U64 / 2]) else logU(s, 7, 1, 10000000),
      freq: logU(s, 8, 1, 1000000), n: n, cliffAmt: cliff }
  }

  // 100 percent over six parts
  pure def drawPct(s: int, vests: bool): List[int] = {
    pure val ws = range(0, 6).foldl([], (a, i) => a.append(if ((i == 2 or i == 5) and not(vests)) 0 else if (chance(s, i, 40)) 0 else 1 + pick(s, 10 + i, 100)))
    pure val sum = ws.foldl(0, (a, x) => a + x)
    if (sum == 0) [100, 0, 0, 0, 0, 0]
    else {
      pure val ps = ws.foldl([], (a, x) => a.append(100 * x / sum))
      pure val at = if (chance(s, 30, 50)) 0 else 3
      ps.replaceAt(at, ps[at] + 100 - ps.foldl(0, (a, x) => a + x))
    }
  }

  pure def draft(s: int, w: World, pf: Prof): Params = {
    pure val v1 = if (w.t22 or w.quoteKind >= 2) false else if (pf.venue == -1) chance(s, 1, 45) else pf.venue == 0
    pure val quote = logU(s, 2, if (chance(s, 3, 15)) 100 else 1000000, 2000000000000000000)
    pure val baseTotal = logU(s, 4, if (chance(s, 5, 10)) 10000 else 1000000000, 1000000000000000000)
    pure val start = if (chance(s, 6, 2)) logU(s, 7, MIN_SQRT, MAX_SQRT - 1)
      else clamp(isqrt(quote * Q128 / baseTotal) / (1 + pick(s, 8, 6)), MIN_SQRT, MAX_SQRT - 1)
    pure val n = if (chance(s, 9, 30)) 1 else if (chance(s, 10, 65)) between(s, 11, 2, 4) else between(s, 12, 5, 16)
    pure val crv = drawCurve(h(s, 13), start, n, quote)
    pure val cap = capacity(start, crv)
    pure val thr0 = if (chance(s, 14, 20)) cap.sum
      else if (chance(s, 15, 25)) choose(s, 16, cap.sums)
      else logU(s, 17, max(1, cap.sum / 50), max(cap.sum, 1))
    pure val thr = clamp(thr0, 1, MOST)
    pure val kind = if (pf.fee == -1) wpick(s, 18, [30, 40, 30]) else pf.fee
    pure val collect = if (kind == 2) 0 else if (pf.collect == -1) pick(s, 19, 2) else pf.collect
    pure val comp = not(v1) and chance(s, 20, 40)
    pure val feeOpt = if (v1) pick(s, 21, 6) else if (comp or chance(s, 22, 55)) CUSTOM else pick(s, 23, 6)
    pure val custom = feeOpt == CUSTOM
    pure val baseMode = if (custom and chance(s, 24, 50)) 3 + pick(s, 25, 2) else pick(s, 26, 2)
    pure val market = custom and baseMode >= 3
    pure val mFee = between(s, 27, 10, 1000)
    pure val mn = logU(s, 28, 1, 200)
    pure val migFeePct = if (chance(s, 29, 40)) 0 else if (chance(s, 30, 10)) 99 else between(s, 31, 1, 99)
    pure val ps = drawPct(h(s, 32), not(v1))
    pure val p0: Params = {
      quote: "mint.q", partner: if (chance(s, 33, 85)) "partner" else choose(s, 34, ["creator", "heir"]),
      leftoverTo: "leftover", base: drawBase(h(s, 35), kind, thr), hasDyn: chance(s, 36, pf.dyn),
      dyn: { on: false, bin: 1, binQ: 1844674407370955, filter: logU(s, 37, 1, 120), decay: 120 + logU(s, 38, 1, 1000), red: pick(s, 39, 10001),
             maxVol: logU(s, 40, 1, U24), vfc: logU(s, 41, 1, U24) },
      pv: drawVest(h(s, 42), ps[2]), cv: drawVest(h(s, 43), ps[5]),
      collect: collect, migOpt: if (v1) 0 else 1, actType: pick(s, 44, 2), decimals: between(s, 45, 6, 9), tokenType: if (w.t22) 1 else 0,
      pPerm: ps[0], pLiq: ps[1], cPerm: ps[3], cLiq: ps[4],
      migFeeOpt: feeOpt, hasSupply: false, preSupply: 0, postSupply: 0,
      creatorPct: if (chance(s, 46, 15)) 0 else if (chance(s, 47, 15)) 100 else pick(s, 48, 101), tokAuth: pick(s, 49, 5),
      migFeePct: migFeePct, creatorMigPct: if (migFeePct == 0) 0 else pick(s, 50, 101), migQuote: thr, lv: noLock,
      mCollect: if (comp) 2 else if (custom) pick(s, 51, 2) else 0, mDyn: if (custom) pick(s, 52, 2) else 0, mFeeBps: if (custom) mFee else 0,
      mBaseMode: if (custom) baseMode else 0, mComp: if (comp) between(s, 53, 1, BPS) else 0,
      mSched: if (not(market)) noMSched else {
        n: mn, step: logU(s, 54, 1, U16), expiry: logU(s, 55, 1, 100000000),
        red: if (baseMode == 3) logU(s, 56, 1, max(1, (bpsToNum(mFee) - 100000) / mn)) else logU(s, 57, 1, max(1, 20000 / mn)) },
      firstMin: chance(s, 58, pf.first), creationFee: if (chance(s, 59, 40)) 0 else if (chance(s, 60, 10)) MAX_CREATION else logU(s, 61, MIN_CREATION, MAX_CREATION),
      start: start, curve: crv
    }
    pure val p1 = if (v1 or p0.pv.pct + p0.cv.pct == 0 or p0.pPerm + p0.cPerm >= 10) p0
      else { ...p0, pv: { ...p0.pv, cliff: max(p0.pv.cliff, if (p0.pv.pct > 0) DAY + 1 else 0) }, cv: { ...p0.cv, cliff: max(p0.cv.cliff, if (p0.cv.pct > 0) DAY + 1 else 0) } }
    pure val d = derive(p1)
    pure val p2 = if (d.swapBase > 0 and chance(s, 62, pf.lock)) { ...p1, lv: drawLock(h(s, 63), min(d.swapBase, U64)) } else p1
    if (d.price == FAIL or d.migBase == FAIL or not(chance(s, 64, pf.fixed)))
      { ...p2, leftoverTo: if (chance(s, 65, 20)) "none" else "leftover" }
    else {
      pure val rest = d.migBase + vestTotal(p2.lv)
      pure val need = withBuffer(p2.curve, p2.start, d.swapBase) + rest
      pure val pre = if (chance(s, 66, 30)) need else need + logU(s, 67, 1, need)
      pure val post = if (chance(s, 68, 20)) pre else if (chance(s, 69, 20)) d.swapBase + rest else between(s, 70, d.swapBase + rest, pre)
      { ...p2, hasSupply: true, preSupply: min(pre, U64), postSupply: min(post, U64) }
    }
  }

  // a configuration that is accepted in every environment that accepts anything
  pure def plain(w: World): Params = {
    quote: "mint.q", partner: "partner", leftoverTo: "leftover",
    base: { cliff: 10000000, bmode: LINEAR, f1: 0, f2: 0, f3: 0 }, hasDyn: false, dyn: { on: false, bin: 1, binQ: 1844674407370955, filter: 10, decay: 120, red: 5000, maxVol: 14460000, vfc: 956 },
    pv: noVest, cv: noVest, collect: 0, migOpt: 1, actType: 1, decimals: 6, tokenType: if (w.t22) 1 else 0,
    pPerm: 10, pLiq: 40, cPerm: 20, cLiq: 30, migFeeOpt: 2, hasSupply: false, preSupply: 0, postSupply: 0,
    creatorPct: 40, tokAuth: 1, migFeePct: 5, creatorMigPct: 30, migQuote: 1000000000000, lv: noLock,
    mCollect: 0, mDyn: 0, mFeeBps: 0, mBaseMode: 0, mComp: 0, mSched: noMSched, firstMin: true, creationFee: 10000000,
    start: Q64, curve: [{ p: 2 * Q64, l: 18446744073709551616000000000000 }]
  }

  pure def around(s: int, k: int, x: int, top: int): int = clamp(x + pick(s, k, 3) - 1, 0, top)
  // a configuration with one parameter moved to, or just over, a bound
  pure def mutate(s: int, p: Params): Params = {
    pure val m = pick(s, 1, 52)
    pure val n = p.curve.length()
    pure val i = pick(s, 2, n)
    pure val d = derive(p)
    if (m == 0) { ...p, base: { ...p.base, cliff: around(s, 3, MIN_NUM, U64) } }
    else if (m == 1) { ...p, base: { ...p.base, cliff: around(s, 3, MAX_NUM, U64) } }
    else if (m == 2) { ...p, base: { ...p.base, bmode: pick(s, 3, 5) } }
    else if (m == 3) { ...p, base: { ...p.base, f1: choose(s, 3, [0, 1, p.base.f1 + 1, U16]) % 65536 } }
    else if (m == 4) { ...p, base: { ...p.base, f2: choose(s, 3, [0, 1, 43199, 43200, 43201, 107999, 108000, 108001, U64]) } }
    else if (m == 5) { ...p, base: { ...p.base, f3: choose(s, 3, [0, 1, p.base.f3 + 1, BPS, BPS + 1, U64]) } }
    else if (m == 6) { ...p, hasDyn: true, dyn: { ...p.dyn, bin: around(s, 3, 1, U16) } }
    else if (m == 7) { ...p, hasDyn: true, dyn: { ...p.dyn, binQ: around(s, 3, 1844674407370955, U128) } }
    else if (m == 8) { ...p, hasDyn: true, dyn: { ...p.dyn, filter: around(s, 3, p.dyn.decay, U16) } }
    else if (m == 9) { ...p, hasDyn: true, dyn: { ...p.dyn, red: around(s, 3, BPS, U16) } }
    else if (m == 10) { ...p, hasDyn: true, dyn: { ...p.dyn, vfc: around(s, 3, U24, U32) } }
    else if (m == 11) { ...p, hasDyn: true, dyn: { ...p.dyn, maxVol: around(s, 3, U24, U32) } }
    else if (m == 12) { ...p, collect: pick(s, 3, 4) }
    else if (m == 13) { ...p, migOpt: pick(s, 3, 3) }
    else if (m == 14) { ...p, actType: pick(s, 3, 3) }
    else if (m == 15) { ...p, tokenType: pick(s, 3, 3) }
    else if (m == 16) { ...p, decimals: choose(s, 3, [0, 5, 6, 9, 10, 255]) }
    else if (m == 17) { ...p, pLiq: around(s, 3, p.pLiq, U8) }
    else if (m == 18) { ...p, pPerm: around(s, 3, p.pPerm, U8) }
    else if (m == 19) { ...p, cLiq: around(s, 3, p.cLiq, U8) }
    else if (m == 20) { ...p, cPerm: around(s, 3, p.cPerm, U8) }
    // move locked percentages to free ones: around a tenth
    else if (m == 21) { pure val k = 9 + pick(s, 3, 3) { ...p, pPerm: k, cPerm: 0, pv: noVest, cv: noVest, pLiq: 40, cLiq: 60 - k } }
    else if (m == 22) { ...p, migQuote: choose(s, 3, [0, 1, around(s, 4, capacity(p.start, p.curve).sum, U64), min(U64, p.migQuote * 2)]) }
    else if (m == 23) { ...p, start: choose(s, 3, [MIN_SQRT - 1, MIN_SQRT, MAX_SQRT - 1, MAX_SQRT, p.curve[0].p, p.curve[0].p - 1, 0]) }
    else if (m == 24) { ...p, curve: p.curve.replaceAt(i, { ...p.curve[i], p: choose(s, 3, [if (i > 0) p.curve[i - 1].p else p.start, (if (i > 0) p.curve[i - 1].p else p.start) + 1, MAX_SQRT, MAX_SQRT + 1, 0]) }) }
    else if (m == 25) { ...p, curve: p.curve.replaceAt(i, { ...p.curve[i], l: choose(s, 3, [0, 1, U128]) }) }
    else if (m == 26) { ...p, curve: if (n > 1) p.curve.slice(0, n - 1) else [] }
    else if (m == 27) { ...p, curve: range(0, 17).foldl([], (a, j) => a.append({ p: p.start + (j + 1) * max(1, p.start / 40), l: p.curve[0].l })).slice(0, 15 + pick(s, 3, 3)) }
    else if (m == 28) { ...p, migFeeOpt: pick(s, 3, 9) }
    else if (m == 29) { ...p, creatorPct: choose(s, 3, [0, 100, 101, 255]) }
    else if (m == 30) { ...p, tokAuth: pick(s, 3, 7) }
    else if (m == 31) { ...p, migFeePct: choose(s, 3, [0, 1, 98, 99, 100, 255]) }
    else if (m == 32) { ...p, creatorMigPct: choose(s, 3, [0, 1, 100, 101, 255]) }
    else if (m == 33) { ...p, lv: { ...p.lv, freq: choose(s, 3, [0, 1, U64]) } }
    else if (m == 34) { ...p, lv: { ...p.lv, per: choose(s, 3, [0, 1, U64]), n: choose(s, 4, [0, 1, 2, U64]) } }
    else if (m == 35) { ...p, lv: { ...p.lv, cliffAmt: choose(s, 3, [0, 1, U64]) } }
    else if (m == 36) { ...p, lv: { ...p.lv, cliffDur: choose(s, 3, [0, 1, U64]) } }
    else if (m == 37) { ...p, creationFee: choose(s, 3, [0, 1, MIN_CREATION - 1, MIN_CREATION, MAX_CREATION, MAX_CREATION + 1, U64]) }
    else if (m == 38) { ...p, hasSupply: true, preSupply: around(s, 3, p.preSupply, U64) }
    else if (m == 39) { ...p, hasSupply: true, postSupply: around(s, 3, p.postSupply, U64) }
    else if (m == 40) {
      pure val rest = d.migBase + vestTotal(p.lv)
      pure val need = withBuffer(p.curve, p.start, max(d.swapBase, 0)) + rest
      { ...p, hasSupply: true, preSupply: around(s, 3, min(U64 - 1, max(need, 0)), U64), postSupply: clamp(around(s, 4, max(0, d.swapBase + rest), U64), 0, U64) }
    }
    else if (m == 41) { ...p, hasSupply: true, leftoverTo: choose(s, 3, ["none", "leftover"]) }
    else if (m == 42) { ...p, mCollect: pick(s, 3, 4), mComp: choose(s, 4, [0, 1, BPS, BPS + 1]) }
    else if (m == 43) { ...p, mDyn: pick(s, 3, 3) }
    else if (m == 44) { ...p, mFeeBps: choose(s, 3, [0, 9, 10, 1000, 1001]) }
    else if (m == 45) { ...p, mBaseMode: pick(s, 3, 6) }
    else if (m == 46) { ...p, mSched: choose(s, 3, [{ ...p.mSched, n: 0 }, { ...p.mSched, step: 0 }, { ...p.mSched, expiry: 0 }, { ...p.mSched, red: 0 }, { ...p.mSched, n: 1 }]) }
    // the market-cap fee may not fall under a hundredth of a percent
    else if (m == 47) {
      pure val k = max(1, p.mSched.n)
      { ...p, migFeeOpt: CUSTOM, mBaseMode: 3, mFeeBps: clamp(p.mFeeBps, 10, 1000),
        mSched: { n: k, step: 1, expiry: 1, red: max(0, (bpsToNum(clamp(p.mFeeBps, 10, 1000)) - 100000) / k + pick(s, 3, 2)) } }
    }
    else if (m == 48) { ...p, pv: { ...p.pv, bps: choose(s, 3, [0, 1, BPS, BPS + 1, U16]), n: choose(s, 4, [0, 1, 2, p.pv.n]) } }
    else if (m == 49) { ...p, cv: { ...p.cv, freq: choose(s, 3, [0, 1, TWO_YEARS, U32]), cliff: choose(s, 4, [0, 1, DAY - 1, DAY, TWO_YEARS, TWO_YEARS + 1, U32]) } }
    else if (m == 50) { ...p, pv: { ...p.pv, freq: choose(s, 3, [0, 1, p.pv.freq]), cliff: choose(s, 4, [0, 1, DAY, max(0, TWO_YEARS - p.pv.n * p.pv.freq), max(0, TWO_YEARS - p.pv.n * p.pv.freq + 1) % U32]) } }
    // everything vested, unlocking around the day mark
    else {
      pure val cl = DAY - 1 + pick(s, 3, 3)
      pure val k = pick(s, 4, 3)
      { ...p, migOpt: 1, pPerm: 0, cPerm: 9 + k, pv: { on: false, pct: 1, bps: 5000, n: 1, freq: 1 + pick(s, 5, 3), cliff: cl - pick(s, 6, 3) }, cv: noVest, pLiq: 50, cLiq: 40 - k }
    }
  }

  // liquidity whose locked part one day after migration lies around a tenth, with the day mark on a period boundary
  pure def dayEdge(s: int, p: Params): Params = {
    pure val pc = 1 + pick(s, 1, 40)
    pure val n = if (chance(s, 2, 10)) 0 else 1 + pick(s, 3, 12)
    pure val bps = if (n == 0) 0 else if (chance(s, 4, 50)) BPS / n else between(s, 5, 1, BPS / n)
    pure val k = min(pick(s, 6, n + 2), 13)
    pure val freq = if (n == 0) 0 else if (chance(s, 7, 30)) 1 + pick(s, 8, 1000) else between(s, 8, 1, DAY / max(k, 1))
    pure val cliff = if (chance(s, 15, 15)) choose(s, 16, [0, 1, DAY]) else max(0, DAY - k * freq + pick(s, 9, 3) - 1)
    pure val gone = if (n == 0 or freq == 0) 0 else clamp((DAY - cliff) / freq, 0, n)
    pure val locked = if (cliff > DAY) pc * 100 else pc * (n - gone) * bps / 100
    pure val perm = clamp(cdiv(1000 - locked, 100) + pick(s, 10, 2) - 1, 0, 50)
    pure val v: Vest = { on: false, pct: pc, bps: bps, n: n, freq: freq, cliff: cliff }
    pure val mine = pick(s, 11, perm + 1)
    pure val rest = 100 - pc - perm
    pure val free = pick(s, 12, rest + 1)
    pure val q = { ...p, migOpt: 1, pPerm: mine, cPerm: perm - mine, pLiq: free, cLiq: rest - free }
    if (chance(s, 13, 50)) { ...q, pv: v, cv: noVest }
    else if (pc == 1 or chance(s, 14, 60)) { ...q, pv: noVest, cv: v }
    else { ...q, pv: { ...v, pct: pc / 2 }, cv: { ...v, pct: pc - pc / 2 } }
  }

  pure def drawParams(s: int, w: World, pf: Prof): Params = {
    pure val r = range(0, 8).foldl({ ok: false, p: plain(w) }, (a, i) =>
      if (a.ok) a else {
        pure val p = draft(h(s, i), w, pf)
        if (faults(p, w.ts, w.quoteKind) == Set()) { ok: true, p: p } else a
      })
    if (not(chance(s, 100, pf.bad))) r.p
    else if (r.p.tokenType < 2 and chance(s, 104, 15)) {
      pure val p = if (r.p.migOpt == 1) r.p else { ...plain(w), curve: r.p.curve, start: r.p.start, migQuote: r.p.migQuote }
      dayEdge(h(s, 101), p)
    } else {
      pure val p = mutate(h(s, 101), r.p)
      if (chance(s, 102, 15)) mutate(h(s, 103), p) else p
    }
  }
}
