// Generated behaviour: which transaction is tried next in a world. Mostly sensible, with every bound, order, party
// and account varied; what a history concentrates on is given by a profile.
module gen {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import config.* from "./config"
  import swap.* from "./swap"
  import migrate.* from "./migrate"
  import step.* from "./step"
  import finish.* from "./finish"
  import rnd.* from "./rnd"
  import genp.* from "./genp"
  import attacks.* from "./attacks"

  pure def plainIx(act: Act): Ix = { act: act, via: 0, join: false, sv: "no", sub: [] }

  // ---- trades
  // tokens between the present price and a target, as the program rounds them (in up, out down)
  pure def between2(c: Cfg, lo: int, hi: int, base: bool, up: bool): int =
    c.curve.foldl({ from: c.start, sum: 0 }, (a, k) => {
      pure val x = max(lo, a.from)
      pure val y = min(hi, k.p)
      { from: k.p, sum: if (x >= y) a.sum else a.sum + (if (base) dBase(x, y, k.l, up) else dQuote(x, y, k.l, up)) }
    }).sum
  // the amount a caller must state to bring the price to `target`
  pure def reach(w: World, dir: int, mode: int, target: int): int = {
    pure val c = w.cfg
    pure val p = w.pool
    pure val lo = min(p.price, target)
    pure val hi = max(p.price, target)
    pure val buy = dir == BUY
    pure val inp = between2(c, lo, hi, not(buy), true)
    pure val out = between2(c, lo, hi, buy, false)
    pure val v = refresh(c.dyn, p.vol, p.price, w.ts)
    if (mode == EXACT_OUT) {
      if (onInput(c, dir)) out
      else { pure val r = rateIncl(c, p, v, now(w), dir, max(out, 1), false) if (r == FAIL) out else out - feeOf(r, out) }
    }
    else if (onInput(c, dir)) { pure val r = rateExcl(c, p, v, now(w), dir, inp, false) if (r == FAIL or r >= DEN) inp else inclOf(r, inp) }
    else inp
  }
  pure def jitter(s: int, k: int, x: int): int = x + pick(s, k, 3) - 1
  pure def drawAmount(s: int, w: World, dir: int, mode: int): int = {
    pure val c = w.cfg
    pure val p = w.pool
    pure val marks = c.curve.select(k => if (dir == BUY) k.p > p.price and k.p < c.migPrice else k.p < p.price).foldl([], (a, k) => a.append(k.p))
    pure val whole = max(1, reach(w, dir, mode, if (dir == BUY) c.migPrice else c.start))
    pure val lim = c.base.bmode == LIMITER and not(limZero(c.base)) and dir == BUY and mode != EXACT_OUT
    pure val kind = wpick(s, 1, [15, 28, 15, 20, 8, if (lim) 30 else 0, 3, 1])
    pure val x =
      if (kind == 0) between(s, 2, 1, 10)
      else if (kind == 1) logU(s, 3, 1, whole)
      else if (kind == 2) whole * between(s, 4, 1, 100) / 100
      else if (kind == 3) (if (marks.length() == 0) logU(s, 5, 1, whole) else jitter(s, 6, reach(w, dir, mode, choose(s, 7, marks))))
      else if (kind == 4) jitter(s, 8, whole)
      else if (kind == 5) {
        pure val m = limMaxIndex(c.base)
        jitter(s, 9, c.base.f3 * (if (chance(s, 10, 20)) m + between(s, 11, 0, 2) else if (chance(s, 12, 60)) between(s, 13, 1, 6) else logU(s, 14, 1, m + 3)))
          + (if (chance(s, 15, 30)) logU(s, 16, 1, c.base.f3) else 0)
      }
      else if (kind == 6) choose(s, 17, [whole * 2, U64, w.tok.getOr("trader0.q"), 9223372036854775808])
      else 0
    clamp(x, 0, U64)
  }
  pure def drawReferral(s: int, w: World, who: str, dir: int): str =
    if (chance(s, 1, 60)) "none"
    else {
      pure val fb = inBase(w.cfg, dir)
      pure val k = pick(s, 2, 100)
      if (k < 75) (if (fb) "referrer.b" else "referrer.q")
      else if (k < 87) (if (fb) baseOf.get(who) else quoteOf.get(who))
      else if (k < 94) (if (fb) "referrer.q" else "referrer.b")
      else (if (fb) "vault.b" else "vault.q")
    }
  pure def drawSwap(s: int, w: World, pf: Prof): SwapArgs = {
    pure val rich = if (w.tok.getOr("trader0.b") > w.tok.getOr("trader1.b")) "trader0" else "trader1"
    pure val hasBase = w.tok.getOr(baseOf.get(rich)) > 0
    // whoever holds nearly all that was bought may try to take out everything above the start price, and one more
    pure val drain = hasBase and w.pool.price > w.cfg.start and chance(s, 20, 12)
      and w.tok.getOr(baseOf.get(rich)) >= between2(w.cfg, w.cfg.start, w.pool.price, true, false) * 999 / 1000
    pure val dir = if (drain) SELL else if (not(hasBase)) (if (chance(s, 1, 97)) BUY else SELL) else if (chance(s, 2, 60)) BUY else SELL
    pure val who = if (drain or dir == SELL and chance(s, 3, 85)) rich else choose(s, 4, ["trader0", "trader1"])
    pure val legacy = not(drain) and chance(s, 5, 12)
    pure val mode = if (drain) EXACT_OUT else if (legacy) 0 else if (chance(s, 6, 1)) 3 else pick(s, 7, 3)
    pure val a0raw = if (drain) max(1, reach(w, SELL, EXACT_OUT, w.cfg.start) + between(s, 21, -1, 3)) else drawAmount(h(s, 8), w, dir, min(mode, 2))
    pure val bal = w.tok.getOr(baseOf.get(who))
    pure val a0 = if (dir == SELL and mode != EXACT_OUT and bal > 0 and (a0raw > bal and chance(s, 9, 90) or chance(s, 10, 15)))
        (if (chance(s, 11, 50)) bal else logU(s, 12, 1, bal)) else a0raw
    pure val ref = drawReferral(h(s, 13), w, who, dir)
    pure val v = refresh(w.cfg.dyn, w.pool.vol, w.pool.price, w.ts)
    pure val a1 =
      if (chance(s, 14, 62) or a0 == 0 or mode > 2 or complete(w)) (if (mode == EXACT_OUT) U64 else 0)
      else {
        pure val t = trade(w.cfg, w.pool, v, now(w), dir, mode, a0, ref != "none", false)
        pure val x = if (not(t.ok)) 0 else if (mode == EXACT_OUT) t.incl else t.out
        clamp(x + choose(s, 15, [0, 0, 0, -1, 1]), 0, U64)
      }
    { dir: dir, mode: mode, a0: a0, a1: a1, who: who, referral: ref, legacy: legacy }
  }
  // how the swap is called: mostly as its circumstances demand
  pure def callSwap(s: int, w: World, a: SwapArgs, fresh: bool): Ix = {
    pure val need = limited(w, a.dir) or (w.cfg.firstMin == 1 and w.pool.hasSwap == 0)
    pure val sv = if (need) (if (chance(s, 1, 88)) "real" else choose(s, 2, ["no", "fake"])) else if (chance(s, 3, 85)) "no" else choose(s, 4, ["real", "real", "fake"])
    { act: Swap(a), via: if (chance(s, 5, if (need or fresh) 75 else 90)) 0 else 1 + pick(s, 6, 2), join: chance(s, 7, 40), sv: sv, sub: [] }
  }
  // something else in the same transaction
  pure def bridge(s: int): Ix = {
    pure val k = wpick(s, 1, [55, 25, 20])
    pure val act = if (k == 0) Foreign({ touches: chance(s, 2, 40), mimic: wpick(s, 3, [5, 3, 2]) })
      else if (k == 1) TwinSwap({ a: between(s, 4, 1, 100000) }) else OtherInit({ extra: chance(s, 5, 40) })
    { act: act, via: if (chance(s, 6, 50)) 0 else pick(s, 7, 3), join: chance(s, 8, 40), sv: "no", sub: [] }
  }

  pure def prologue(s: int, x: Ix): List[Ix] = {
    pure val k = wpick(s, 1, [80, 10, 10])
    if (k == 0) [x] else if (k == 1) [x, bridge(h(s, 2))] else [bridge(h(s, 3)), x]
  }
  // several instructions of one transaction
  // `manner`: 0 at top level, 1 all by one aggregator, 2 as it comes
  pure def styled(manner: int, x: Ix): Ix = if (manner == 0) { ...x, via: 0 } else if (manner == 1) { ...x, via: 1, join: true } else x
  pure def several(s: int, w: World, pf: Prof, before: List[Ix], n: int): List[Ix] = {
    pure val manner = wpick(s, 100, [25, 30, 45])
    range(0, n).foldl({ w: w, l: before }, (a, i) => {
      pure val k = h(s, i)
      if (chance(k, 1, 22)) { w: a.w, l: a.l.append(styled(manner, bridge(h(k, 2)))) }
      else {
        pure val x = styled(manner, callSwap(h(k, 3), a.w, drawSwap(h(k, 4), a.w, pf), before != [] or a.l != []))
        pure val e = step(a.w, x, a.l)
        // stop at the first one that is bound to fail
        if (complete(a.w)) a else { w: if (e.ok) e.w else a.w, l: a.l.append(x) }
      }
    }).l
  }
  // many tiny trades, which leave their rounding with the pool
  pure def dust(s: int, w: World): List[Ix] = {
    pure val dir = BUY
    pure val rem = w.cfg.migQuote - w.pool.quoteRes
    pure val n = if (chance(s, 4, 50)) between(s, 1, 5, 25) else 3
    range(0, n).foldl([], (l, i) => l.append({ act: Swap({ dir: dir, mode: EXACT_OUT, a0: between(s, 10 + i, 1, 3), a1: U64, who: choose(s, 2, ["trader0", "trader1"]),
      referral: "none", legacy: false }), via: 0, join: false, sv: "no", sub: [] }))
  }

  // ---- every arrangement of up to two instructions before a swap, within one transaction
  pure def modest(w: World): int = max(1, (w.cfg.migQuote - w.pool.quoteRes) / 20000)
  pure def small(w: World, dir: int): Act = Swap({ dir: dir, mode: 0, a0: if (dir == BUY) modest(w) else max(1, w.tok.getOr("trader0.b") / 1000), a1: 0, who: "trader0",
    referral: "none", legacy: false })
  pure def piece(w: World, k: int): Act =
    if (k == 0) small(w, BUY) else if (k == 1) small(w, SELL) else if (k == 2) Foreign({ touches: false, mimic: 0 }) else if (k == 3) Foreign({ touches: true, mimic: 0 })
    else if (k == 4) Foreign({ touches: true, mimic: 1 }) else if (k == 5) Foreign({ touches: true, mimic: 2 }) else if (k == 6) TwinSwap({ a: 1000 })
    else if (k == 7) OtherInit({ extra: false }) else if (k == 8) OtherInit({ extra: true })
    else ClaimTrade({ side: "partner", a: U64, b: U64, by: w.cfg.partner, baseTo: "partner.b", quoteTo: "partner.q" })
  pure val svs: List[str] = ["real", "no", "fake"]
  pure val ARRANGEMENTS = 35640
  // the mixed-radix digits of the (scattered) number of an arrangement
  pure def digits(i: int, radices: List[int]): List[int] =
    radices.foldl({ n: i * 7919 % ARRANGEMENTS, l: [] }, (a, r) => { n: a.n / r, l: a.l.append(a.n % r) }).l
  pure def arranged(w: World, i: int): List[Ix] = {
    pure val d = digits(i, [10, 3, 3, 2, 3, 11, 3, 2])
    pure val own = { act: small(w, BUY), via: d[2], join: d[3] == 1, sv: svs[d[4]], sub: [] }
    pure def ixOf(k: int, via: int, join: bool): Ix = { act: piece(w, k), via: via, join: join, sv: if (k < 2) "real" else "no", sub: [] }
    pure val one = ixOf(d[0], d[1], false)
    if (d[5] == 10) [one, own] else [one, ixOf(d[5], d[6], d[7] == 1), own]
  }
  // the same around the creation of the pool and its first swap
  pure def bundledArranged(w: World, init: Ix, fresh: World, i: int): List[Ix] = {
    pure val d = digits(i, [3, 3, 2, 3, 11, 3, 2, 2])
    pure val create = { ...init, via: d[0] }
    pure val own = { act: small(fresh, BUY), via: d[1], join: d[2] == 1, sv: svs[d[3]], sub: [] }
    pure val x = { act: piece(fresh, if (d[7] == 1 and (d[4] < 2 or d[4] == 9)) 2 else d[4]), via: d[5], join: d[6] == 1, sv: if (d[4] < 2) "real" else "no", sub: [] }
    if (d[4] == 10) [create, own] else if (d[7] == 1) [x, create, own] else [create, x, own]
  }

  // ---- everything else
  pure val names: List[str] = ["Swap", "Several", "Dust", "Push", "Warp", "ClaimTrade", "ClaimProtocol", "Zap", "Surplus", "WithdrawMigFee",
    "ClaimCreationFee", "CreateLocker", "V1Meta", "V1Migrate", "V1LockLp", "V1ClaimLp", "V2Meta", "V2Migrate", "Leftover", "TransferCreator",
    "CreateOperator", "CloseOperator", "CloseLegacy", "PartnerMeta", "PoolMeta", "Donate", "Overshoot", "CreateConfig", "InitPool", "Inherit"]
  pure val whenTrading: List[int] = [560, 40, 6, 0, 110, 40, 20, 14, 5, 5,
    18, 5, 12, 5, 2, 2, 2, 5, 3, 14,
    20, 3, 1, 2, 2, 12, 0, 1, 1, 2]
  pure val afterwards: List[int] = [15, 3, 0, 0, 20, 50, 40, 30, 60, 60,
    25, 30, 25, 25, 25, 25, 4, 25, 25, 30,
    30, 4, 2, 2, 2, 15, 12, 1, 1, 4]
  // index in `names` of the instruction that takes the launch forward
  pure def forward(w: World): int =
    if (w.pool.stage == POST) 11 else if (w.pool.stage == READY) (if (w.cfg.migOpt == 0) (if (w.v1.on) 13 else 12) else 17) else 8
  pure def usable(w: World, name: str): bool =
    if (name == "V1Meta") w.cfg.migOpt == 0 and not(w.v1.on)
    else if (name == "V1Migrate") w.cfg.migOpt == 0 and w.pool.stage == READY
    else if (name == "V2Migrate") w.cfg.migOpt == 1 and w.pool.stage == READY
    else if (name == "V1LockLp" or name == "V1ClaimLp") w.cfg.migOpt == 0 and w.pool.stage == MIGRATED
    else if (name == "CreateLocker") w.pool.stage == POST
    else if (name == "Leftover") w.pool.stage == MIGRATED and w.pool.leftover == 0
    else true

  pure def mostly(s: int, k: int, right: str, pc: int, others: List[str]): str = if (chance(s, k, pc)) right else choose(s, k + 1, others)
  pure val people: List[str] = ["eve", "trader0", "partner", "creator", "heir", "op0", "admin0"]
  pure def upTo(s: int, k: int, due: int): int = {
    pure val i = wpick(s, k, [40, 8, 20, 10, 10, 12])
    clamp(if (i == 0) U64 else if (i == 1) 0 else if (i == 2) due else if (i == 3) due - 1 else if (i == 4) due + 1 else logU(s, k + 1, 1, max(due, 1)), 0, U64)
  }
  pure def holder(w: World, side: str): str = if (side == "partner") w.cfg.partner else w.pool.creator
  pure def opFor(s: int, k: int, w: World): str = {
    pure val os = ["op0", "op1", "trader0"].select(o => w.ops.keys().contains(o))
    if (os.length() > 0 and chance(s, k, 88)) choose(s, k + 1, os) else choose(s, k + 2, ["op0", "op1", "admin0", "partner", "eve"])
  }
  pure val rightV1: Venue1 = { auth: "authority", num: 0, den: 1, dur: 0, partnerFee: 0, vaultCfg: "none" }
  pure def drawVenue1(s: int, c: Cfg): Venue1 = {
    pure val den = choose(s, 1, [10000, 100000, 1000000000])
    pure val ok = { ...rightV1, num: feeOptions[min(c.migFeeOpt, 5)] * den / 10000, den: den }
    if (chance(s, 2, 75)) ok
    else choose(s, 3, [{ ...ok, num: ok.num + 1 }, { ...ok, num: max(ok.num - 1, 0) }, { ...ok, auth: "eve" }, { ...ok, auth: "none" }, { ...ok, dur: 1 },
      { ...ok, partnerFee: 1 }, { ...ok, vaultCfg: "eve" }, { ...ok, den: 0 }])
  }
  pure def drawVenue2(s: int, c: Cfg): Venue2 = {
    pure val ok: Venue2 = { auth: "authority", feeNum: feeOptions[min(c.migFeeOpt, 5)] * (DEN / BPS), mode: pick(s, 1, 2), n: 0, freq: 0, red: 0,
                            min: MIN_SQRT, max: MAX_SQRT, vaultCfg: "none", act: 1 }
    if (chance(s, 2, 75)) ok
    else choose(s, 3, [{ ...ok, feeNum: ok.feeNum + 1 }, { ...ok, feeNum: ok.feeNum - 1 }, { ...ok, feeNum: ok.feeNum + DEN / BPS }, { ...ok, auth: "eve" }, { ...ok, auth: "none" },
      { ...ok, mode: 2 }, { ...ok, n: 1 }, { ...ok, freq: 1 }, { ...ok, red: 1 }, { ...ok, min: MIN_SQRT + 1 }, { ...ok, max: MAX_SQRT - 1 }, { ...ok, vaultCfg: "eve" }, { ...ok, act: 0 }])
  }
  pure def drawWarp(s: int, w: World): Act = {
    pure val c = w.cfg
    pure val t = now(w) - w.pool.act
    pure val f = c.base
    pure val k = wpick(s, 1, [30, if (f.bmode != LIMITER and f.f2 > 0) 45 else 0, if (f.bmode == LIMITER and f.f2 > 0 and t <= f.f2) 30 else 0, if (c.dyn.on) 50 else 0, 6, 4])
    pure val bySlot = c.actType == 0
    if (k == 1) {
      pure val edge = if (chance(s, 2, 20)) max(f.f1 * f.f2 - t, 0)
        else if (chance(s, 9, 25)) max((if (chance(s, 10, 50)) pick(s, 11, f.f1 + 1) else choose(s, 12, [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768])) * f.f2 - t, 0)
        else f.f2 - t % f.f2
      pure val d = max(0, edge + pick(s, 3, 3) - 1 + (if (chance(s, 4, 30)) f.f2 * pick(s, 5, 6) else 0))
      Warp({ slots: if (bySlot) d else pick(s, 6, 10), secs: if (bySlot) pick(s, 6, 10) else d })
    } else if (k == 2) {
      pure val d = max(0, f.f2 - t + pick(s, 3, 3) - 1)
      Warp({ slots: if (bySlot) d else pick(s, 6, 10), secs: if (bySlot) pick(s, 6, 10) else d })
    } else if (k == 3) {
      pure val last = w.pool.vol.last
      pure val goal = last + (if (chance(s, 2, 50)) c.dyn.filter else c.dyn.decay) + pick(s, 3, 3) - 1
      Warp({ slots: pick(s, 4, 5), secs: if (goal > w.ts and goal - w.ts < 100000) goal - w.ts else pick(s, 5, 4) })
    }
    else if (k == 4) { pure val d = logU(s, 2, 1, 100000000) Warp({ slots: d, secs: d }) }
    else if (k == 5) Warp({ slots: pick(s, 2, 2), secs: 0 })
    else Warp({ slots: pick(s, 2, 30), secs: pick(s, 3, 30) })
  }
  // the swap that completes the curve, when it is affordable
  pure def push(s: int, w: World): Ix = {
    pure val f = w.cfg.base
    if (limited(w, BUY) and chance(s, 1, 70)) {
      pure val d = w.pool.act + f.f2 + 1 - now(w)
      plainIx(Warp({ slots: d, secs: d }))
    } else callSwap(h(s, 2), w, { dir: BUY, mode: PARTIAL, a0: min(w.tok.getOr("trader1.q"), if (chance(s, 3, 30)) U64 else 100 * (w.cfg.migQuote - w.pool.quoteRes) + 1000),
      a1: 0, who: "trader1", referral: drawReferral(h(s, 4), w, "trader1", BUY), legacy: false }, false)
  }

  pure def drawAct(s: int, w: World, pf: Prof, name: str): Act = {
    pure val c = w.cfg
    pure val p = w.pool
    pure val side = choose(s, 1, ["partner", "creator"])
    pure val who = holder(w, side)
    pure val by = mostly(s, 2, who, 88, people)
    if (name == "Warp") drawWarp(h(s, 4), w)
    else if (name == "ClaimTrade") {
      pure val x = if (side == "partner") p.partB else p.creB
      pure val y = if (side == "partner") p.partQ else p.creQ
      ClaimTrade({ side: side, a: upTo(s, 5, x), b: upTo(s, 7, y), by: by,
        baseTo: mostly(s, 9, baseOf.getOrS(by), 90, ["trader0.b", "leftover.b", "vault.b", "partner.q"]),
        quoteTo: mostly(s, 11, quoteOf.getOrS(by), 90, ["trader0.q", "leftover.q", "vault.q", "partner.b"]) })
    }
    else if (name == "ClaimProtocol") ClaimProtocol({ a: upTo(s, 5, p.protB + (if (chance(s, 6, 50)) p.migProtB else 0)), b: upTo(s, 7, p.protQ + (if (chance(s, 8, 50)) p.migProtQ else 0)), by: opFor(s, 9, w) })
    else if (name == "Zap") {
      pure val isBase = chance(s, 5, 45)
      pure val o = opFor(s, 9, w)
      Zap({ isBase: isBase, amount: upTo(s, 6, if (isBase) p.protB + (if (chance(s, 8, 50)) p.migProtB else 0) else p.protQ + (if (chance(s, 8, 50)) p.migProtQ else 0)), by: o,
        to: if (chance(s, 12, 90)) (if (isBase) baseOf.getOrS(o) else quoteOf.getOrS(o)) else (if (isBase) choose(s, 13, ["eve.b", "treasury.b", "treasury2.b"]) else choose(s, 13, ["eve.q", "treasury.q", "treasury2.q"])),
        accept: chance(s, 14, 93) })
    }
    else if (name == "Surplus") Surplus({ side: side, by: by, to: mostly(s, 5, quoteOf.getOrS(by), 88, ["trader0.q", "leftover.q", "vault.q", "partner.b"]) })
    else if (name == "WithdrawMigFee") WithdrawMigFee({ flag: if (chance(s, 5, 3)) 2 else if (side == "partner") 0 else 1, by: by, to: mostly(s, 6, quoteOf.getOrS(by), 88, ["trader0.q", "leftover.q", "vault.q", "partner.b"]) })
    else if (name == "ClaimCreationFee") {
      pure val o = opFor(s, 9, w)
      if (side == "partner") ClaimCreationFee({ side: side, by: by, to: mostly(s, 5, by, 70, ["leftover", "trader0", "treasury"]) })
      else ClaimCreationFee({ side: "protocol", by: o, to: mostly(s, 5, "treasury", 92, ["eve", "op0", "partner"]) })
    }
    else if (name == "CreateLocker") CreateLocker({ by: choose(s, 5, ["cranker", "trader0", "creator"]), evil: if (chance(s, 6, 4)) 1 + pick(s, 7, 2) else 0 })
    else if (name == "V1Meta") V1Meta({ by: choose(s, 5, ["cranker", "trader0"]) })
    else if (name == "V1Migrate") V1Migrate({ by: choose(s, 5, ["cranker", "trader0", "partner"]), lp: if (chance(s, 6, 60)) 0 else logU(s, 7, 1, 1000000000000000000),
        evil: if (chance(s, 8, 5)) 1 + pick(s, 9, 2) else 0, venue: drawVenue1(h(s, 10), c) })
    else if (name == "V1LockLp") V1LockLp({ owner: mostly(s, 5, who, 90, ["heir", "creator", "partner", "eve"]), by: choose(s, 7, ["cranker", "trader0"]), evil: if (chance(s, 8, 4)) 1 + pick(s, 9, 2) else 0 })
    else if (name == "V1ClaimLp") V1ClaimLp({ owner: mostly(s, 5, who, 90, ["heir", "creator", "partner", "eve"]), by: choose(s, 7, ["cranker", "trader0"]) })
    else if (name == "V2Meta") V2Meta({ by: "cranker" })
    else if (name == "V2Migrate") V2Migrate({ by: choose(s, 5, ["cranker", "trader0", "partner"]), evil: if (chance(s, 8, 5)) 1 + pick(s, 9, 2) else 0, second: chance(s, 10, 94), venue: drawVenue2(h(s, 11), c) })
    else if (name == "Leftover") Leftover({ by: choose(s, 5, ["cranker", "trader0"]) })
    else if (name == "TransferCreator") TransferCreator({ to: choose(s, 5, ["creator", "heir", "heir", "partner"]), by: mostly(s, 6, p.creator, 86, people),
        meta: if (p.stage == MIGRATED and c.migOpt == 0) mostly(s, 8, "v1meta", 85, ["none", "tv1meta", "v2meta"]) else mostly(s, 8, "none", 80, ["v1meta", "v2meta"]) })
    else if (name == "CreateOperator") {
      pure val free = ["op0", "op1", "trader0"].select(o => not(w.ops.keys().contains(o)))
      CreateOperator({ who: if (free.length() > 0 and chance(s, 5, 90)) choose(s, 6, free) else choose(s, 7, ["op0", "op1"]),
        perm: if (chance(s, 8, 88)) 1 + pick(s, 9, 3) else choose(s, 10, [0, 4, 5, 7, 8, powers[64], U128]), by: mostly(s, 11, choose(s, 12, ["admin0", "admin1"]), 85, people) })
    }
    else if (name == "CloseOperator") {
      pure val os = ["op0", "op1", "trader0"].select(o => w.ops.keys().contains(o))
      CloseOperator({ who: if (os.length() > 0) choose(s, 5, os) else "op0", by: mostly(s, 6, choose(s, 7, ["admin0", "admin1"]), 75, people) })
    }
    else if (name == "CloseLegacy") CloseLegacy({ by: mostly(s, 5, "admin0", 60, ["op1", "eve", "partner"]) })
    else if (name == "PartnerMeta") {
      pure val m = choose(s, 15, ["partner", "creator", "heir"])
      PartnerMeta({ who: m, by: mostly(s, 16, m, 75, people), text: pick(s, 7, 10) })
    }
    else if (name == "PoolMeta") PoolMeta({ by: mostly(s, 5, p.creator, 75, people), text: pick(s, 7, 10) })
    else if (name == "Overshoot") Overshoot({ amount: logU(s, 5, 1, 1000000000000000) })
    else if (name == "Inherit") Inherit({ kind: 1 + pick(s, 5, 2), n: 0 })
    else if (name == "Donate") Donate({ to: choose(s, 5, ["vault.b", "vault.q", "vault.b", "vault.q", "pool", "authority", "trader0.q", "partner.b"]), amount: logU(s, 6, 1, 1000000000000) })
    else if (name == "CreateConfig") CreateConfig(drawParams(h(s, 5), w, pf))
    else InitPool({ t22: w.t22, creator: "creator", text: 0 })
  }

  pure def initIx(s: int, w: World): Ix = {
    pure val flip = w.cfg.tokenType == b2i(w.t22) and chance(s, 1, 3)
    plainIx(InitPool({ t22: if (flip) not(w.t22) else w.t22, creator: if (chance(s, 2, 80)) "creator" else choose(s, 3, ["partner", "heir"]), text: pick(s, 4, 10) }))
  }
  // an otherwise good instruction with accounts replaced
  pure def spoil(s: int, w: World, x: Ix): Ix =
    if (not(step(w, x, []).ok)) x
    else { pure val l = attacks(w, x.act) if (l.length() == 0) x else { ...x, sub: choose(s, 1, l) } }

  // pays a vault of the launch, which is a donation
  pure def gives(x: Act): bool = match x {
    | ClaimTrade(y) => y.baseTo == "vault.b" or y.quoteTo == "vault.q"
    | Surplus(y) => y.to == "vault.q"
    | WithdrawMigFee(y) => y.to == "vault.q"
    | Swap(y) => y.referral == "vault.b" or y.referral == "vault.q"
    | ClaimCreationFee(y) => y.to == "pool"
    | _ => false
  }

  // the next transaction; k of n
  pure def gen(pf: Prof, w: World, s: int, k: int, n: int): List[Ix] =
    if (not(w.hasCfg)) {
      if (chance(s, 1, 6)) { pure val x = plainIx(drawAct(h(s, 2), w, pf, choose(s, 3, ["CreateOperator", "PartnerMeta", "CloseLegacy"]))) [if (chance(s, 4, pf.attack)) spoil(h(s, 5), w, x) else x] }
      else [plainIx(CreateConfig(drawParams(h(s, 6), w, pf)))]
    }
    else if (not(w.hasPool)) {
      pure val x = initIx(h(s, 1), w)
      if (chance(s, 30, 6) and w.cfg.curve.length() <= 16) [plainIx(Inherit({ kind: 3, n: 17 + pick(s, 31, 4) }))]
      else if (chance(s, 2, 8)) [plainIx(drawAct(h(s, 3), w, pf, choose(s, 4, ["CreateOperator", "PartnerMeta", "CreateConfig"])))]
      else if (chance(s, 5, pf.attack)) [spoil(h(s, 6), w, x)]
      else {
        pure val e = step(w, x, [])
        if (e.ok and pf.sys >= 0 and w.cfg.firstMin == 1) bundledArranged(w, x, e.w, pf.sys + k)
        else if (e.ok and chance(s, 7, max(pf.first, 10))) several(h(s, 8), e.w, pf, prologue(h(s, 9), if (chance(s, 13, 85)) x else { ...x, via: 1 + pick(s, 14, 2) }), 1 + pick(s, 11, if (chance(s, 12, 70)) 1 else 3))
        else [x]
      }
    }
    else if (pf.end >= 0 and k >= pf.end) {
      pure val on = onwards(w)
      pure val owed = entitlements(w)
      pure val l = if (on != [] and (owed == [] or chance(s, 1, 60))) on else owed
      if (l == []) [] else {
        pure val i = pick(s, 2, l.length())
        [{ ...plainIx(l[i]), sv: if (w.cfg.firstMin == 1 and w.pool.hasSwap == 0) "real" else "no" }]
      }
    }
    else if (pf.sys >= 0 and limited(w, BUY) and w.pool.stage == TRADING and k % 12 != 11) arranged(w, pf.sys + k)
    else if (pf.stop >= 100 and chance(s, 22, 60)) []
    else if (pf.stop > 0 and w.pool.stage != TRADING and chance(s, 21, pf.stop)) []
    else {
      pure val trading = w.pool.stage == TRADING
      pure val late = trading and chance(s, 1, if (2 * k > n) 4 * pf.pace else pf.pace)
      pure val onward = not(trading) and w.pool.stage != MIGRATED and chance(s, 2, if (2 * k > n) 30 else 8)
      pure val ws = if (trading) whenTrading else afterwards
      pure val ws2 = range(0, names.length()).foldl([], (a, i) => {
        pure val good = usable(w, names[i])
        pure val x = ws[i] * (if (pf.focus.contains(names[i])) 5 else 1)
        a.append(if (pf.end >= 0 and (names[i] == "Donate" or names[i] == "Overshoot")) 0 else if (names[i] == "Several") ws[i] * pf.multi / 10 else if (good) x * 4 else x)
      })
      pure val awaited = trading and w.cfg.firstMin == 1 and w.pool.hasSwap == 0
      pure val name = if (awaited and chance(s, 20, 30)) "Several" else if (late) "Push" else if (onward) names[forward(w)] else names[wpick(s, 3, ws2)]
      if (name == "Push") [push(h(s, 4), w)]
      else if (name == "Several" and complete(w)) [plainIx(Warp({ slots: 1, secs: 1 }))]
      else if (name == "Several") several(h(s, 5), w, pf, if (chance(s, 6, if (awaited) 80 else 25)) [bridge(h(s, 7))] else [], 2 + pick(s, 8, 3))
      else if (name == "Dust") dust(h(s, 9), w)
      else if (w.ops.keys() == Set() and chance(s, 10, 12)) [plainIx(drawAct(h(s, 11), w, pf, "CreateOperator"))]
      else {
        pure val x = if (name == "Swap") callSwap(h(s, 12), w, drawSwap(h(s, 13), w, pf), false) else plainIx(drawAct(h(s, 14), w, pf, name))
        if (pf.attack > 0 and chance(s, 15, if (name == "Swap") pf.attack / 3 else pf.attack)) [spoil(h(s, 16), w, x)] else [x]
      }
    }
}
