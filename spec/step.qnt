// The transition function: what an instruction must do in a world, or why it must be refused.
module step {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import config.* from "./config"
  import swap.* from "./swap"
  import migrate.* from "./migrate"

  // ---- small helpers
  pure def getOr(m: str -> int, k: str): int = if (m.keys().contains(k)) m.get(k) else 0
  // a transfer; also right when both accounts are the same
  pure def mv(m: str -> int, src: str, dst: str, n: int): str -> int = {
    pure val t = m.put(src, m.getOr(src) - n)
    t.put(dst, t.getOr(dst) + n)
  }
  pure def refuse(w: World, why: Set[Why]): Exp = { ok: false, why: why, w: w, ev: [], calls: [] }
  pure def done(w: World, ev: List[Obs], calls: List[Obs]): Exp = { ok: true, why: Set(), w: w, ev: ev, calls: calls }
  // the failed ones among conditions that must hold: (holds, property that demands it, reason)
  pure def failed(cs: Set[(bool, str, str)]): Set[Why] = cs.filter(c => not(c._1)).map(c => { p: c._2, r: c._3 })
  pure def both(cond: bool, p: str, q: str, r: str): Set[(bool, str, str)] = Set((cond, p, r), (cond, q, r))
  pure def noPool(w: World, p: str): Exp = refuse(w, Set({ p: p, r: "there is no such pool" }))

  pure def complete(w: World): bool = w.pool.quoteRes >= w.cfg.migQuote
  pure def now(w: World): int = point(w.cfg, w.slot, w.ts)

  // ---- where instructions stand in their transaction
  // the outer instructions of a transaction: index of each instruction, and which one is called by an aggregator
  type Outers = { n: int, agg: bool, idx: List[int] }
  pure def outers(ixs: List[Ix]): Outers =
    ixs.foldl({ n: -1, agg: false, idx: [] }, (s, x) =>
      if (x.via == 0) { n: s.n + 1, agg: false, idx: s.idx.append(s.n + 1) }
      else if (x.join and s.agg) { ...s, idx: s.idx.append(s.n) }
      else { n: s.n + 1, agg: true, idx: s.idx.append(s.n + 1) })

  pure def isSwap(x: Ix): bool = match (x.act) { | Swap(_) => true | _ => false }
  pure def isInit(x: Ix): bool = match (x.act) { | InitPool(_) => true | _ => false }
  // does the instruction name the pool among its accounts?
  pure def namesPool(x: Ix): bool = match (x.act) {
    | Foreign(f) => f.touches
    | TwinSwap(_) => false | OtherInit(x) => x.extra | CreateConfig(_) => false | CreateOperator(_) => false | CloseOperator(_) => false
    | CloseLegacy(_) => false | PartnerMeta(_) => false | Warp(_) => false | Donate(_) => false | Overshoot(_) => false | Inherit(_) => false
    | _ => true
  }
  pure def isForeign(x: Ix): bool = match (x.act) { | Foreign(_) => true | _ => false }

  // While the limiter is in force a buy must be the only swap on the pool of its transaction, as far as the
  // transaction's instructions can be seen: the real instructions sysvar, called at most once removed, no earlier swap
  // next to it, and no earlier outer instruction that could have swapped.
  pure def alone(ix: Ix, prev: List[Ix]): bool = {
    pure val every = prev.append(ix)
    pure val o = outers(every)
    pure val me = o.idx[every.length() - 1]
    and {
      ix.sv == "real",
      ix.via <= 1,
      prev.indices().forall(j => {
        pure val x = prev[j]
        if (o.idx[j] == me) not(x.via == 1 and isSwap(x))
        else if (x.via == 0 and not(isForeign(x))) not(isSwap(x))
        else not(namesPool(x))
      })
    }
  }
  // the swap made in the transaction that created the pool
  pure def bundled(ix: Ix, prev: List[Ix]): bool =
    ix.sv == "real" and ix.via == 0 and prev.indices().exists(j => prev[j].via == 0 and isInit(prev[j]))

  pure def modeOf(a: SwapArgs): int = if (a.legacy) EXACT_IN else a.mode
  pure def hasRef(a: SwapArgs): bool = a.referral != "none"
  pure def firstSwap(w: World, ix: Ix, prev: List[Ix], a: SwapArgs): bool =
    w.cfg.firstMin == 1 and w.pool.hasSwap == 0 and not(hasRef(a)) and bundled(ix, prev)
  pure def limited(w: World, dir: int): bool = limApplies(w.cfg.base, now(w), w.pool.act, dir)

  // the trade of a swap, whether or not everything else allows it
  pure def tradeOf(w: World, ix: Ix, prev: List[Ix], a: SwapArgs): Trade = {
    pure val v = refresh(w.cfg.dyn, w.pool.vol, w.pool.price, w.ts)
    trade(w.cfg, w.pool, v, now(w), a.dir, modeOf(a), a.a0, hasRef(a), firstSwap(w, ix, prev, a))
  }
  pure def slippageOk(mode: int, a1: int, t: Trade): bool = if (mode == EXACT_OUT) t.incl <= a1 else t.out >= a1

  pure def suffix(who: str, s: str): str = if (s == "b") baseOf.getOrS(who) else quoteOf.getOrS(who)
  pure def getOrS(m: str -> str, k: str): str = if (m.keys().contains(k)) m.get(k) else "none"
  pure val wallets: Set[str] = Set("partner", "creator", "heir", "leftover", "trader0", "trader1", "referrer", "admin0",
    "admin1", "op0", "op1", "eve", "cranker", "treasury")
  pure val baseOf: str -> str = Map("partner" -> "partner.b", "creator" -> "creator.b", "heir" -> "heir.b", "leftover" -> "leftover.b",
    "trader0" -> "trader0.b", "trader1" -> "trader1.b", "referrer" -> "referrer.b", "admin0" -> "admin0.b", "admin1" -> "admin1.b",
    "op0" -> "op0.b", "op1" -> "op1.b", "eve" -> "eve.b", "cranker" -> "cranker.b", "treasury" -> "treasury.b")
  pure val quoteOf: str -> str = Map("partner" -> "partner.q", "creator" -> "creator.q", "heir" -> "heir.q", "leftover" -> "leftover.q",
    "trader0" -> "trader0.q", "trader1" -> "trader1.q", "referrer" -> "referrer.q", "admin0" -> "admin0.q", "admin1" -> "admin1.q",
    "op0" -> "op0.q", "op1" -> "op1.q", "eve" -> "eve.q", "cranker" -> "cranker.q", "treasury" -> "treasury.q")
  pure val lpOf: str -> str = Map("partner" -> "partner.lp", "creator" -> "creator.lp", "heir" -> "heir.lp", "eve" -> "eve.lp")
  pure val escOf: str -> str = Map("partner" -> "esc:partner.lp", "creator" -> "esc:creator.lp", "heir" -> "esc:heir.lp", "eve" -> "esc:eve.lp")
  pure val metaOf: str -> str = Map("partner" -> "pmeta:partner", "creator" -> "pmeta:creator", "heir" -> "pmeta:heir", "leftover" -> "pmeta:leftover",
    "trader0" -> "pmeta:trader0", "trader1" -> "pmeta:trader1", "referrer" -> "pmeta:referrer", "admin0" -> "pmeta:admin0",
    "admin1" -> "pmeta:admin1", "op0" -> "pmeta:op0", "op1" -> "pmeta:op1", "eve" -> "pmeta:eve", "cranker" -> "pmeta:cranker", "treasury" -> "pmeta:treasury")
  pure val baseAccounts: Set[str] = wallets.map(x => baseOf.get(x)).union(Set("treasury2.b", "leftover2.b", "vault.b"))
  pure val quoteAccounts: Set[str] = wallets.map(x => quoteOf.get(x)).union(Set("treasury2.q", "leftover2.q", "vault.q", "tvault.q"))

  // ---- creation
  pure def createConfig(w: World, p: Params): Exp = {
    pure val why = faults(p, w.ts, w.quoteKind).map(r => { p: "C24", r: r }).union(failed(Set((not(w.hasCfg), "C24", "exists"))))
    if (why != Set()) refuse(w, why)
    else {
      pure val c = mkCfg(p, w.quoteKind)
      pure val ids = Map("cfg" -> "cfg", "quote" -> p.quote, "partner" -> p.partner, "leftoverTo" -> p.leftoverTo)
      done({ ...w, hasCfg: true, cfg: c }, [
        { name: "config", n: Map("same" -> 1, "swapBase" -> c.swapBase, "migBase" -> c.migBase, "fixedSupply" -> c.fixedSupply,
          "preSupply" -> c.preSupply, "postSupply" -> c.postSupply), s: ids },
        { name: "config2", n: Map("same" -> 1), s: ids }
      ], [])
    }
  }

  pure def updateAuth(c: Cfg, creator: str): str =
    if (c.tokAuth == 0 or c.tokAuth == 3) creator else if (c.tokAuth == 1) "none" else c.partner
  pure def mintAuth(c: Cfg, creator: str): str =
    if (c.tokAuth == 3) creator else if (c.tokAuth == 4) c.partner else "none"
  // for an SPL token the metadata keeps naming the launch's authority when nobody may update it
  pure def freshMint(c: Cfg, t22: bool, creator: str): Mint = {
    supply: supplyOf(c), auth: mintAuth(c, creator), freeze: "none", decimals: c.decimals,
    program: if (t22) "t22" else "tok", updateAuth: updateAuth(c, creator), mutable: b2i(c.tokAuth != 1),
    pointer: if (t22) updateAuth(c, creator) else "none", pointsTo: if (t22) "mint.b" else "none",
    exts: if (t22) Set("MetadataPointer", "TokenMetadata") else Set()
  }
  pure def initPool(w: World, t22: bool, creator: str, text: int): Exp =
    if (not(w.hasCfg)) refuse(w, Set({ p: "C20", r: "there is no such configuration" }))
    else {
      pure val c = w.cfg
      pure val lockedBps = vestLockedBps(c.pv, DAY) + vestLockedBps(c.cv, DAY) + (c.pPerm + c.cPerm) * 100
      pure val why = failed(Set(
        (not(w.hasPool), "C20", "the pool exists"),
        (t22 == (c.tokenType == 1), "C20", "token kind differs from the configuration"),
        (t22 == w.t22, "C20", "token program"),
        (fits(supplyOf(c), U64), "C20", "more tokens than a mint can hold"),
        (lockedBps >= 1000, "C24", "too little locked liquidity"),
        (baseMin(c.base) != FAIL and baseMin(c.base) >= MIN_NUM, "C24", "base fee too low")
      ))
      if (why != Set()) refuse(w, why)
      else {
        pure val supply = supplyOf(c)
        pure val p: Pool = {
          cfg: "cfg", creator: creator, baseMint: "mint.b", baseVault: "vault.b", quoteVault: "vault.q",
          baseRes: supply, quoteRes: 0, protB: 0, protQ: 0, partB: 0, partQ: 0, creB: 0, creQ: 0,
          price: c.start, act: now(w), kind: b2i(t22), migrated: 0, partSurp: 0, protSurp: 0, creSurp: 0,
          stage: TRADING, leftover: 0, migFeeBits: 0, totProtB: 0, totProtQ: 0, totTradB: 0, totTradQ: 0,
          finish: 0, creationBits: 0, legacyBits: 0, hasSwap: 0, lmfBps: LMF_BPS, migProtB: 0, migProtQ: 0,
          vol: { last: 0, refp: 0, acc: 0, vref: 0 }
        }
        done({ ...w, hasPool: true, pool: p, mint: freshMint(c, t22, creator),
               tok: w.tok.put("vault.b", w.tok.getOr("vault.b") + supply),
               texts: w.texts.put("mint", text), lam: w.lam.put("pool", w.lam.getOr("pool") + c.creationFee) },
          [{ name: "init", n: Map("kind" -> b2i(t22), "act" -> now(w)),
             s: Map("pool" -> "pool", "cfg" -> "cfg", "creator" -> creator, "mint" -> "mint.b") }], [])
      }
    }

  // ---- trading
  pure def swapWhy(w: World, ix: Ix, prev: List[Ix], a: SwapArgs, t: Trade): Set[Why] = {
    pure val c = w.cfg
    pure val p = w.pool
    pure val mode = modeOf(a)
    pure val inTok = if (a.dir == BUY) quoteOf.getOrS(a.who) else baseOf.getOrS(a.who)
    pure val early = failed(Set(
      (a.a0 > 0, "C05", "zero amount"),
      (mode <= EXACT_OUT, "C05", "unknown mode"),
      (limited(w, a.dir) implies alone(ix, prev), "C09", "not the only swap of its transaction"),
      (not(complete(w)), "C12", "the curve is complete")
    ))
    if (early != Set()) early
    else if (not(t.ok)) failed(both(false, "C05", "C03", "the curve cannot execute this trade"))
    else failed(Set(
      (slippageOk(mode, a.a1, t), "C05", "slippage"),
      (if (a.dir == BUY) p.baseRes >= gross(c, BUY, t) else p.quoteRes >= gross(c, SELL, t), "C01", "reserve exhausted"),
      (w.tok.getOr(inTok) >= t.incl, "C02", "the trader cannot pay"),
      (hasRef(a) implies (if (inBase(c, a.dir)) baseAccounts else quoteAccounts).contains(a.referral), "C02", "referral account of another token"),
      (p.quoteRes + t.excl < c.migQuote or a.dir == SELL
        or w.tok.getOr("vault.b") - t.out - (if (inBase(c, BUY)) t.sp.ref else 0)
           >= c.migBase + baseFees(p) + (if (inBase(c, BUY)) t.sp.trade + t.sp.prot else 0) + vestTotal(c.lv),
       "C12", "the vault would not cover the migration")
    ))
  }
  pure def swapEffect(w: World, a: SwapArgs, t: Trade): Exp = {
    pure val c = w.cfg
    pure val p = w.pool
    pure val mode = modeOf(a)
    pure val v = refresh(c.dyn, p.vol, p.price, w.ts)
    pure val cre = pct(t.sp.trade, c.creatorPct)
    pure val part = t.sp.trade - cre
    pure val g = gross(c, a.dir, t)
    pure val buy = a.dir == BUY
    pure val fb = inBase(c, a.dir)
    pure val ib = b2i(fb)
    pure val iq = 1 - ib
    pure val quoteRes = if (buy) p.quoteRes + t.excl else p.quoteRes - g
    pure val full = quoteRes >= c.migQuote
    pure val p2 = {
      ...p,
      baseRes: if (buy) p.baseRes - g else p.baseRes + t.excl,
      quoteRes: quoteRes,
      protB: p.protB + ib * t.sp.prot, protQ: p.protQ + iq * t.sp.prot,
      partB: p.partB + ib * part, partQ: p.partQ + iq * part,
      creB: p.creB + ib * cre, creQ: p.creQ + iq * cre,
      totProtB: p.totProtB + ib * t.sp.prot, totProtQ: p.totProtQ + iq * t.sp.prot,
      totTradB: p.totTradB + ib * t.sp.trade, totTradQ: p.totTradQ + iq * t.sp.trade,
      price: t.price, hasSwap: 1, vol: advance(c.dyn, v, p.price, t.price, w.ts),
      finish: if (full) w.ts else p.finish,
      stage: if (full) (if (vestTotal(c.lv) > 0) POST else READY) else p.stage
    }
    pure val tok1 = if (buy) mv(w.tok, quoteOf.get(a.who), "vault.q", t.incl) else mv(w.tok, baseOf.get(a.who), "vault.b", t.incl)
    pure val tok2 = if (buy) mv(tok1, "vault.b", baseOf.get(a.who), t.out) else mv(tok1, "vault.q", quoteOf.get(a.who), t.out)
    pure val tok3 = if (hasRef(a)) mv(tok2, if (fb) "vault.b" else "vault.q", a.referral, t.sp.ref) else tok2
    pure val ids = Map("pool" -> "pool", "cfg" -> "cfg")
    pure val e1 = { name: "swap", n: Map("dir" -> a.dir, "hasRef" -> b2i(hasRef(a)),
      "a0" -> (if (mode == EXACT_IN) a.a0 else t.incl), "a1" -> (if (mode == EXACT_IN) a.a1 else t.out),
      "in" -> t.excl, "out" -> t.out, "price" -> t.price, "trade" -> t.sp.trade, "prot" -> t.sp.prot, "ref" -> t.sp.ref,
      "amountIn" -> t.incl, "ts" -> w.ts), s: ids }
    pure val e2 = { name: "swap2", n: Map("dir" -> a.dir, "hasRef" -> b2i(hasRef(a)), "a0" -> a.a0, "a1" -> a.a1, "mode" -> mode,
      "incl" -> t.incl, "excl" -> t.excl, "left" -> t.left, "out" -> t.out, "price" -> t.price, "trade" -> t.sp.trade,
      "prot" -> t.sp.prot, "ref" -> t.sp.ref, "quoteRes" -> quoteRes, "threshold" -> c.migQuote, "ts" -> w.ts), s: ids }
    pure val e3 = { name: "complete", n: Map("baseRes" -> p2.baseRes, "quoteRes" -> quoteRes), s: ids }
    done({ ...w, pool: p2, tok: tok3 }, if (full) [e1, e2, e3] else [e1, e2], [])
  }
  pure def swapStep(w: World, ix: Ix, prev: List[Ix], a: SwapArgs): Exp =
    if (not(w.hasPool)) noPool(w, "C02")
    else {
      pure val t = if (a.a0 > 0 and modeOf(a) <= EXACT_OUT and not(complete(w))) tradeOf(w, ix, prev, a) else noTrade
      pure val why = swapWhy(w, ix, prev, a, t)
      if (why != Set()) refuse(w, why) else swapEffect(w, a, t)
    }

  // ---- claims of trading fees
  pure def pays(w: World, baseTo: str, nb: int, quoteTo: str, nq: int): str -> int =
    mv(mv(w.tok, "vault.b", baseTo, nb), "vault.q", quoteTo, nq)
  pure def amounts(name: str, b: int, q: int): Obs = { name: name, n: Map("base" -> b, "quote" -> q), s: Map("pool" -> "pool") }
  pure def amount(name: str, x: int): Obs = { name: name, n: Map("amount" -> x), s: Map("pool" -> "pool") }

  // who may act for a side; for the creator's side the right follows the role
  pure def mustBe(by: str, who: str, side: str, p: str): Set[(bool, str, str)] =
    both(by == who, "C19", p, "wrong signer").union(if (side == "partner") Set() else Set((by == who, "C26", "wrong signer")))

  pure def claimTrade(w: World, side: str, a: int, b: int, by: str, baseTo: str, quoteTo: str): Exp =
    if (not(w.hasPool)) noPool(w, "C14")
    else {
      pure val p = w.pool
      pure val partner = side == "partner"
      pure val why = failed(mustBe(by, if (partner) w.cfg.partner else p.creator, side, "C14")
        .union(Set((baseAccounts.contains(baseTo) and quoteAccounts.contains(quoteTo), "C14", "account of another token"))))
      if (why != Set()) refuse(w, why)
      else {
        pure val x = min(a, if (partner) p.partB else p.creB)
        pure val y = min(b, if (partner) p.partQ else p.creQ)
        pure val p2 = if (partner) { ...p, partB: p.partB - x, partQ: p.partQ - y } else { ...p, creB: p.creB - x, creQ: p.creQ - y }
        done({ ...w, pool: p2, tok: pays(w, baseTo, x, quoteTo, y) }, [amounts(if (partner) "claimPartner" else "claimCreator", x, y)], [])
      }
    }

  // ---- surplus and migration fee
  pure def surplus(w: World): int = w.pool.quoteRes - w.cfg.migQuote
  pure def shared(w: World): int = surplus(w) * 80 / 100
  pure def creatorSurplus(w: World): int = pct(shared(w), w.cfg.creatorPct)
  pure def partnerSurplus(w: World): int = shared(w) - creatorSurplus(w)
  pure def protocolSurplus(w: World): int = surplus(w) - shared(w)

  pure def surplusStep(w: World, side: str, by: str, dst: str): Exp =
    if (not(w.hasPool)) noPool(w, "C15")
    else {
      pure val p = w.pool
      pure val partner = side == "partner"
      pure val why = failed(mustBe(by, if (partner) w.cfg.partner else p.creator, side, "C15")
        .union(both(complete(w), "C12", "C15", "not complete"))
        .union(Set(((if (partner) p.partSurp else p.creSurp) == 0, "C15", "paid before"),
                   (quoteAccounts.contains(dst), "C15", "account of another token"))))
      if (why != Set()) refuse(w, why)
      else {
        pure val x = if (partner) partnerSurplus(w) else creatorSurplus(w)
        done({ ...w, pool: if (partner) { ...p, partSurp: 1 } else { ...p, creSurp: 1 }, tok: mv(w.tok, "vault.q", dst, x) },
          [amount(if (partner) "partnerSurplus" else "creatorSurplus", x)], [])
      }
    }

  pure def migFee(c: Cfg): int = c.migQuote - migQuoteAmount(c.migQuote, c.migFeePct)
  pure def creatorMigFee(c: Cfg): int = pct(migFee(c), c.creatorMigPct)
  pure def partnerMigFee(c: Cfg): int = migFee(c) - creatorMigFee(c)
  pure def bit(x: int, b: int): bool = x / b % 2 == 1
  pure val BIT_CREATOR = 2
  pure val BIT_PARTNER = 4
  pure def withdrawMigFee(w: World, flag: int, by: str, dst: str): Exp =
    if (not(w.hasPool)) noPool(w, "C16")
    else {
      pure val p = w.pool
      pure val partner = flag == 0
      pure val b = if (partner) BIT_PARTNER else BIT_CREATOR
      pure val why = failed(mustBe(by, if (partner) w.cfg.partner else p.creator, if (partner) "partner" else "creator", "C16")
        .union(both(complete(w), "C12", "C16", "not complete"))
        .union(Set((flag <= 1, "C16", "unknown party"), (not(bit(p.migFeeBits, b)), "C16", "paid before"),
                   (quoteAccounts.contains(dst), "C16", "account of another token"))))
      if (why != Set()) refuse(w, why)
      else {
        pure val x = if (partner) partnerMigFee(w.cfg) else creatorMigFee(w.cfg)
        done({ ...w, pool: { ...p, migFeeBits: p.migFeeBits + b }, tok: mv(w.tok, "vault.q", dst, x) },
          [{ name: "migFee", n: Map("amount" -> x, "flag" -> flag), s: Map("pool" -> "pool") }], [])
      }
    }

  // ---- protocol
  pure val PERM_CLAIM = 1
  pure val PERM_ZAP = 2
  pure def may(w: World, who: str, perm: int): bool = bit(w.ops.getOr(who), perm)
  // trading fees first, then the share of the migration
  type Taken = { fee: int, mig: int }
  pure def taken(fee: int, mig: int, most: int): Taken = {
    pure val x = min(fee, most)
    { fee: x, mig: min(mig, most - x) }
  }
  pure def surplusDue(w: World): bool = complete(w) and w.pool.protSurp == 0
  pure def takeBase(p: Pool, most: int): { p: Pool, x: int } = {
    pure val t = taken(p.protB, p.migProtB, most)
    { p: { ...p, protB: p.protB - t.fee, migProtB: p.migProtB - t.mig }, x: t.fee + t.mig }
  }
  pure def takeQuote(w: World, p: Pool, most: int): { p: Pool, x: int } = {
    pure val t = taken(p.protQ, p.migProtQ, most)
    pure val s = if (surplusDue(w)) protocolSurplus(w) else 0
    { p: { ...p, protQ: p.protQ - t.fee, migProtQ: p.migProtQ - t.mig, protSurp: if (surplusDue(w)) 1 else p.protSurp },
      x: t.fee + t.mig + s }
  }
  pure def opWhy(w: World, by: str, perm: int, p: str): Set[(bool, str, str)] =
    both(may(w, by, perm), "C29", "C19", "no permission").union(Set((may(w, by, perm), p, "no permission")))

  pure def claimProtocol(w: World, a: int, b: int, by: str): Exp =
    if (not(w.hasPool)) noPool(w, "C17")
    else {
      pure val why = failed(opWhy(w, by, PERM_CLAIM, "C17"))
      if (why != Set()) refuse(w, why)
      else {
        pure val x = takeBase(w.pool, a)
        pure val y = takeQuote(w, x.p, b)
        done({ ...w, pool: y.p, tok: pays(w, "treasury.b", x.x, "treasury.q", y.x) }, [amounts("claimProtocol", x.x, y.x)], [])
      }
    }
  pure def zap(w: World, isBase: bool, most: int, by: str, dst: str, accept: bool): Exp =
    if (not(w.hasPool)) noPool(w, "C17")
    else {
      pure val t = if (isBase) takeBase(w.pool, most) else takeQuote(w, w.pool, most)
      pure val why = failed(opWhy(w, by, PERM_ZAP, "C17").union(Set(
        (isBase or w.quoteKind != 1, "C17", "this mint may not be zapped"),
        (dst == (if (isBase) baseOf.getOrS(by) else quoteOf.getOrS(by)), "C17", "not the operator's own account"),
        (dst == (if (isBase) baseOf.getOrS(by) else quoteOf.getOrS(by)), "C19", "not the operator's own account"),
        (t.x > 0, "C17", "nothing to zap"),
        (accept, "C17", "rejected by the zap validation")
      )))
      if (why != Set()) refuse(w, why)
      else {
        pure val tok = mv(w.tok, if (isBase) "vault.b" else "vault.q", dst, t.x)
        done({ ...w, pool: t.p, tok: tok }, [],
          [{ name: "zap", n: Map("amount" -> t.x, "balance" -> w.tok.getOr(dst), "sysvar" -> 1),
             s: Map("program" -> "dbc", "receiver" -> dst, "treasury" -> "treasury", "paired" -> (if (isBase) "treasury.q" else "treasury.b")) }])
      }
    }

  // ---- pool creation fee
  pure val LEGACY_FEE = 10000000
  pure def creationProtocol(c: Cfg): int = pct(c.creationFee, 10)
  pure def creationFee(w: World, side: str, by: str, dst: str): Exp =
    if (not(w.hasPool)) noPool(w, "C18")
    else {
      pure val p = w.pool
      if (side == "partner") {
        pure val x = w.cfg.creationFee - creationProtocol(w.cfg)
        pure val why = failed(both(by == w.cfg.partner, "C19", "C18", "wrong signer").union(Set(
          (x > 0, "C18", "nothing to claim"), (not(bit(p.creationBits, 2)), "C18", "paid before"))))
        if (why != Set()) refuse(w, why)
        else done({ ...w, pool: { ...p, creationBits: p.creationBits + 2 }, lam: mv(w.lam, "pool", dst, x) },
          [{ name: "creationFeePartner", n: Map("amount" -> x), s: Map("pool" -> "pool", "partner" -> by, "to" -> dst) }], [])
      } else {
        pure val was = bit(p.creationBits, 1)
        // a fee that an earlier program version charged belongs to the protocol as a whole
        pure val old = bit(p.legacyBits, 1) and not(bit(p.legacyBits, 2))
        pure val x = (if (was) 0 else creationProtocol(w.cfg)) + (if (old) LEGACY_FEE else 0)
        pure val why = failed(opWhy(w, by, PERM_CLAIM, "C18").union(both(dst == "treasury", "C18", "C19", "not the treasury")))
        if (why != Set()) refuse(w, why)
        else done({ ...w, pool: { ...p, creationBits: if (was) p.creationBits else p.creationBits + 1, legacyBits: if (old) p.legacyBits + 2 else p.legacyBits }, lam: mv(w.lam, "pool", dst, x) },
          [{ name: "creationFeeProtocol", n: Map("amount" -> x), s: Map("pool" -> "pool", "to" -> dst) }], [])
      }
    }

  // ---- after completion
  pure def createLocker(w: World, evil: int): Exp =
    if (not(w.hasPool)) noPool(w, "C25")
    else {
      pure val p = w.pool
      pure val v = w.cfg.lv
      pure val total = vestTotal(v)
      pure val why = failed(both(p.stage == POST, "C13", "C25", "not in its stage").union(both(complete(w), "C12", "C25", "not complete"))
        .union(Set((evil == 0, "C19", "the locker misuses the authority"),
          (w.tok.getOr("vault.b") >= total, "C01", "the vault is short of the vesting amount"))))
      if (why != Set()) refuse(w, why)
      else done({ ...w, pool: { ...p, stage: READY }, tok: mv(w.tok, "vault.b", "locker.b", total) }, [],
        [{ name: "locker", n: Map("start" -> p.finish, "cliffTime" -> min(p.finish + v.cliffDur, U64), "freq" -> v.freq, "cliffAmt" -> v.cliffAmt,
             "per" -> v.per, "n" -> v.n, "update" -> 2, "cancel" -> 1, "total" -> total),
           s: Map("mint" -> "mint.b", "recipient" -> p.creator, "from" -> "vault.b") }])
    }

  pure def v1Meta(w: World): Exp =
    if (not(w.hasPool)) noPool(w, "C22")
    else {
      pure val why = failed(Set((w.cfg.migOpt == 0, "C22", "the configuration names the other venue"), (not(w.v1.on), "C22", "exists")))
      if (why != Set()) refuse(w, why)
      else done({ ...w, v1: { on: true, pool: "pool", partner: w.cfg.partner, lpMint: "none", pLocked: 0, pLp: 0, cLocked: 0, cLp: 0,
                              pLockedDone: 0, pClaimed: 0, cLockedDone: 0, cClaimed: 0 } },
        [{ name: "v1meta", n: Map(), s: Map("pool" -> "pool") }], [])
    }

  pure def readyWhy(w: World, opt: int, p: str): Set[(bool, str, str)] =
    both(w.pool.stage == READY, "C13", p, "not ready to migrate")
      .union(both(complete(w), "C12", p, "not complete"))
      .union(both(w.cfg.migOpt == opt, "C13", p, "the configuration names the other venue"))

  pure def v1Migrate(w: World, lp: int, evil: int, v: Venue1): Exp =
    if (not(w.hasPool)) noPool(w, "C22")
    else {
      pure val c = w.cfg
      pure val p = w.pool
      pure val st = stake(c, p, w.tok.getOr("vault.b"))
      pure val a = st.base - st.protB
      pure val b = st.quote - st.protQ
      pure val why = failed(readyWhy(w, 0, "C22").union(Set(
        (w.v1.on, "C22", "no migration metadata"),
        (c.migFeeOpt < CUSTOM, "C22", "no fixed fee option"),
        (c.migFeeOpt >= CUSTOM or (v.den > 0 and v.num * BPS / v.den == feeOptions[c.migFeeOpt]), "C22", "venue fee"),
        (v.auth == "authority", "C22", "venue configuration of somebody else"),
        (v.dur == 0, "C22", "activation duration"),
        (v.partnerFee == 0, "C22", "partner fee at the venue"),
        (v.vaultCfg == "none", "C22", "vault configuration"),
        (evil == 0, "C19", "the venue misuses the authority"),
        (st.ok, "C01", "the vault is short of the migration amount"),
        (a > 0 and b > 0, "C22", "nothing to deposit"),
        (w.tok.getOr("vault.q") >= b, "C01", "the vault is short of the migration amount")
      )))
      if (why != Set()) refuse(w, why)
      else {
        pure val left = w.tok.get("vault.b") - a - baseFees(p) - st.protB
        pure val burn = burnable(c, left)
        pure val minted = if (lp == 0) isqrt(a * b) else lp
        pure val d = parts(c, minted)
        pure val tok1 = mv(mv(w.tok, "vault.b", "v1.b", a), "vault.q", "v1.q", b)
        pure val tok2 = tok1.put("vault.b", tok1.get("vault.b") - burn).put("authority.lp", tok1.getOr("authority.lp") + minted)
        if (left < 0) refuse(w, Set({ p: "C01", r: "the vault is short of fees" }))
        else done({ ...w, pool: { ...p, stage: MIGRATED, migrated: 1, migProtB: st.protB, migProtQ: st.protQ },
               mint: { ...w.mint, supply: w.mint.supply - burn }, tok: tok2,
               v1: { ...w.v1, lpMint: "v1.lp", pLocked: d.partner.perm, pLp: d.partner.free, cLocked: d.creator.perm, cLp: d.creator.free } }, [],
          [{ name: "v1.init", n: Map("a" -> a, "b" -> b, "act" -> 0, "lp" -> minted),
             s: Map("pool" -> "v1.pool", "config" -> "v1.cfg", "base" -> "mint.b", "quote" -> "mint.q", "payer" -> "authority") }])
      }
    }

  // whose LP tokens an instruction for `owner` concerns
  type Share = { partner: bool, creator: bool }
  pure def shareOf(w: World, owner: str): Share = { partner: owner == w.v1.partner, creator: owner == w.pool.creator }
  pure def v1LockLp(w: World, owner: str, evil: int): Exp =
    if (not(w.hasPool)) noPool(w, "C22")
    else {
      pure val m = w.v1
      pure val s = shareOf(w, owner)
      pure val n = (if (s.partner) m.pLocked else 0) + (if (s.creator) m.cLocked else 0)
      pure val why = failed(both(w.pool.stage == MIGRATED, "C13", "C22", "not migrated").union(Set(
        (m.on and m.lpMint != "none", "C22", "no migration metadata"),
        (s.partner or s.creator, "C22", "not an owner"),
        (n > 0, "C22", "nothing to lock"),
        ((s.partner implies m.pLockedDone == 0) and (s.creator implies m.cLockedDone == 0), "C22", "locked before"),
        (evil == 0, "C19", "the venue misuses the authority"))))
      if (why != Set()) refuse(w, why)
      else done({ ...w, v1: { ...m, pLockedDone: if (s.partner) 1 else m.pLockedDone, cLockedDone: if (s.creator) 1 else m.cLockedDone },
                  tok: mv(w.tok, "authority.lp", escOf.get(owner), n) }, [],
        [{ name: "v1.lock", n: Map("max" -> n, "amount" -> n), s: Map("owner" -> owner, "pool" -> "v1.pool") }])
    }
  pure def v1ClaimLp(w: World, owner: str): Exp =
    if (not(w.hasPool)) noPool(w, "C22")
    else {
      pure val m = w.v1
      pure val s = shareOf(w, owner)
      pure val n = (if (s.partner) m.pLp else 0) + (if (s.creator) m.cLp else 0)
      pure val why = failed(both(w.pool.stage == MIGRATED, "C13", "C22", "not migrated").union(Set(
        (m.on and m.lpMint != "none", "C22", "no migration metadata"),
        (s.partner or s.creator, "C22", "not an owner"),
        (n > 0, "C22", "nothing to claim"),
        ((s.partner implies m.pClaimed == 0) and (s.creator implies m.cClaimed == 0), "C22", "claimed before"))))
      if (why != Set()) refuse(w, why)
      else done({ ...w, v1: { ...m, pClaimed: if (s.partner) 1 else m.pClaimed, cClaimed: if (s.creator) 1 else m.cClaimed },
                  tok: mv(w.tok, "authority.lp", lpOf.get(owner), n) }, [], [])
    }

  pure def venue2Ok(c: Cfg, v: Venue2): bool = and {
    v.auth == "authority",
    c.migFeeOpt == CUSTOM or and {
      v.mode <= 1 and v.n == 0 and v.freq == 0 and v.red == 0,
      v.feeNum * BPS / DEN == feeOptions[c.migFeeOpt],
      v.min == MIN_SQRT and v.max == MAX_SQRT,
      v.vaultCfg == "none",
      v.act == 1
    }
  }
  // dynamic fee of the migrated pool: at most 20% of the base fee, at the venue's standard volatility settings
  pure def venueVfc(cliff: int): int = (cliff * 20 / 100 * 100000000000 - 99999999999) / 209091600000000
  pure def openCall(c: Cfg, pl: Plan2): Obs = {
    pure val ids = Map("config" -> "v2.cfg", "base" -> "mint.b", "quote" -> "mint.q", "payer" -> "authority", "creator" -> "authority")
    if (c.migFeeOpt < CUSTOM) { name: "v2.init", n: Map("liq" -> pl.l1, "price" -> pl.price, "a" -> pl.a1, "b" -> pl.b1, "act" -> 0), s: ids }
    else {
      pure val cliff = bpsToNum(c.mFeeBps)
      pure val market = c.mBaseMode == 3 or c.mBaseMode == 4
      pure val lowest = if (market) marketMin(c.mFeeBps, c.mBaseMode, c.mSched) else cliff
      pure val n1 = Map("liq" -> pl.l1, "price" -> pl.price, "min" -> MIN_SQRT, "max" -> MAX_SQRT, "alpha" -> 0, "actType" -> 1,
        "mode" -> (if (c.mCollect == 0) 1 else if (c.mCollect == 1) 0 else 2), "act" -> 0,
        "cliff" -> cliff, "feeMode" -> c.mBaseMode,
        "f1" -> (if (market) c.mSched.n else 0), "f2" -> (if (market) c.mSched.step else 0),
        "f3" -> (if (market) c.mSched.expiry else 0), "f4" -> (if (market) c.mSched.red else 0),
        "comp" -> c.mComp, "dyn" -> c.mDyn, "a" -> pl.a1, "b" -> pl.b1)
      pure val n2 = if (c.mDyn == 0) n1 else
        n1.put("dbin", 1).put("dbinq", 1844674407370955).put("dfilter", 10).put("ddecay", 120).put("dred", 5000)
          .put("dmax", 14460000).put("dvfc", venueVfc(lowest))
      { name: "v2.initDyn", n: n2, s: ids }
    }
  }
  pure def lockCalls(x: Part, pos: str, ts: int): List[Obs] = {
    pure val ids = Map("pool" -> "v2.pool", "position" -> pos)
    pure val a = if (x.perm > 0) [{ name: "v2.lock", n: Map("liq" -> x.perm), s: ids }] else []
    if (x.vest == 0) a
    else {
      pure val v = vestParams(x.v, x.vest, ts)
      a.append({ name: "v2.vest", n: Map("cliff" -> v.cliffPoint + 1, "freq" -> v.freq, "cliffLiq" -> v.cliffLiq, "per" -> v.per, "n" -> v.n), s: ids })
    }
  }
  pure def v2Migrate(w: World, evil: int, second: bool, v: Venue2): Exp =
    if (not(w.hasPool)) noPool(w, "C23")
    else {
      pure val c = w.cfg
      pure val p = w.pool
      pure val st = stake(c, p, w.tok.getOr("vault.b"))
      pure val early = failed(readyWhy(w, 1, "C23").union(Set(
        (c.migFeeOpt > CUSTOM or venue2Ok(c, v), "C23", "venue configuration"),
        (evil == 0, "C19", "the venue misuses the authority"),
        (st.ok, "C01", "the vault is short of the migration amount"))))
      if (early != Set()) refuse(w, early)
      else {
        pure val pl = plan2(c, p, w.tok.get("vault.b"))
        pure val why = failed(Set(
          (pl.ok, "C01", "the vault is short of the migration amount"),
          (w.tok.getOr("vault.q") >= pl.b1 + pl.b2, "C01", "the vault is short of the migration amount"),
          (pl.l2 == 0 or second, "C23", "no second position")))
        if (why != Set()) refuse(w, why)
        else {
          pure val o1 = if (pl.partnerFirst) c.partner else p.creator
          pure val o2 = if (pl.partnerFirst) p.creator else c.partner
          pure val tok1 = mv(mv(w.tok, "vault.b", "v2.b", pl.a1 + pl.a2), "vault.q", "v2.q", pl.b1 + pl.b2)
          pure val tok2 = tok1.put("vault.b", tok1.get("vault.b") - pl.burn)
          pure val calls1 = [openCall(c, pl)].concat(lockCalls(pl.p1, "pos1", w.ts))
          pure val calls2 = if (pl.l2 == 0) [] else
            [{ name: "v2.position", n: Map(), s: Map("owner" -> "authority", "pool" -> "v2.pool", "position" -> "pos2") },
             { name: "v2.add", n: Map("liq" -> pl.l2, "a" -> pl.a2, "b" -> pl.b2), s: Map("pool" -> "v2.pool", "position" -> "pos2") }]
              .concat(lockCalls(pl.p2, "pos2", w.ts))
          done({ ...w,
            pool: { ...p, stage: MIGRATED, migrated: 1, migProtB: st.protB, migProtQ: st.protQ },
            mint: { ...w.mint, supply: w.mint.supply - pl.burn }, tok: tok2,
            v2: { on: true, price: pl.price, liq: pl.l1 + pl.l2, a: pl.a1 + pl.a2, b: pl.b1 + pl.b2,
                  pos1: { liq: pl.l1, perm: pl.p1.perm, vest: pl.p1.vest, owner: o1 },
                  pos2: if (pl.l2 == 0) { liq: 0, perm: 0, vest: 0, owner: "none" }
                        else { liq: pl.l2, perm: pl.p2.perm, vest: pl.p2.vest, owner: o2 } } },
            [], calls1.concat(calls2))
        }
      }
    }

  pure def leftoverStep(w: World): Exp =
    if (not(w.hasPool)) noPool(w, "C21")
    else {
      pure val p = w.pool
      pure val x = w.tok.getOr("vault.b") - baseFees(p) - p.migProtB
      pure val dst = baseOf.getOrS(w.cfg.leftoverTo)
      pure val why = failed(both(p.stage == MIGRATED, "C13", "C21", "not migrated").union(Set(
        (w.cfg.fixedSupply == 1, "C21", "no fixed supply"),
        (p.leftover == 0, "C21", "paid before"),
        (x >= 0, "C01", "the vault is short of fees"))))
      if (why != Set()) refuse(w, why)
      else done({ ...w, pool: { ...p, leftover: 1 }, tok: mv(w.tok, "vault.b", dst, x) },
        [{ name: "leftover", n: Map("amount" -> x), s: Map("pool" -> "pool", "to" -> w.cfg.leftoverTo) }], [])
    }

  // every LP part of the v1 migration has been delivered
  pure def v1Delivered(m: V1): bool = and {
    m.pLocked == 0 or m.pLockedDone == 1, m.pLp == 0 or m.pClaimed == 1,
    m.cLocked == 0 or m.cLockedDone == 1, m.cLp == 0 or m.cClaimed == 1
  }
  pure def transferCreator(w: World, dst: str, by: str, meta: str): Exp =
    if (not(w.hasPool)) noPool(w, "C26")
    else {
      pure val p = w.pool
      pure val why = failed(both(by == p.creator, "C19", "C26", "wrong signer").union(Set(
        (dst != p.creator, "C26", "already the creator"),
        (p.stage == TRADING or p.stage == MIGRATED, "C26", "between completion and migration"),
        (p.stage != MIGRATED or w.cfg.migOpt != 0 or (meta == "v1meta" and w.v1.on and v1Delivered(w.v1)), "C26", "LP tokens not delivered")
      )))
      if (why != Set()) refuse(w, why)
      else done({ ...w, pool: { ...p, creator: dst } },
        [{ name: "newCreator", n: Map(), s: Map("pool" -> "pool", "from" -> by, "to" -> dst) }], [])
    }

  // ---- administration
  pure val admins = Set("admin0", "admin1")
  pure def adminWhy(by: str): Set[(bool, str, str)] = both(admins.contains(by), "C29", "C19", "not an admin")
  pure def createOperator(w: World, who: str, perm: int, by: str): Exp = {
    pure val why = failed(adminWhy(by).union(Set(
      (perm > 0 and perm < 4, "C29", "undefined permissions"), (not(w.ops.keys().contains(who)), "C29", "exists"))))
    if (why != Set()) refuse(w, why) else done({ ...w, ops: w.ops.put(who, perm) }, [], [])
  }
  pure def closeOperator(w: World, who: str, by: str): Exp = {
    pure val why = failed(adminWhy(by).union(Set((w.ops.keys().contains(who), "C29", "no such operator"))))
    if (why != Set()) refuse(w, why)
    else done({ ...w, ops: w.ops.keys().exclude(Set(who)).mapBy(k => w.ops.get(k)) }, [], [])
  }
  pure def closeLegacy(w: World, by: str): Exp = {
    pure val why = failed(adminWhy(by).union(Set((w.metas.contains("legacyop"), "C29", "no such operator"))))
    if (why != Set()) refuse(w, why)
    else done({ ...w, metas: w.metas.exclude(Set("legacyop")) },
      [{ name: "closeLegacy", n: Map(), s: Map("account" -> "legacyop", "operator" -> "op1") }], [])
  }
  pure def partnerMeta(w: World, who: str, by: str, text: int): Exp = {
    pure val m = metaOf.getOrS(who)
    pure val why = failed(Set((who == by, "C19", "somebody else's metadata"), (who == by, "C30", "somebody else's metadata"), (not(w.metas.contains(m)), "C30", "exists")))
    if (why != Set()) refuse(w, why)
    else done({ ...w, metas: w.metas.union(Set(m)), texts: w.texts.put(m, text) }, [{ name: "partnerMeta", n: Map(), s: Map("meta" -> m, "partner" -> who) }], [])
  }
  pure def poolMeta(w: World, by: str, text: int): Exp =
    if (not(w.hasPool)) noPool(w, "C19")
    else {
      pure val why = failed(Set((by == w.pool.creator, "C19", "wrong signer"), (by == w.pool.creator, "C30", "wrong signer"), (not(w.metas.contains("plmeta")), "C30", "exists")))
      if (why != Set()) refuse(w, why)
      else done({ ...w, metas: w.metas.union(Set("plmeta")), texts: w.texts.put("plmeta", text) }, [{ name: "poolMeta", n: Map(), s: Map("meta" -> "plmeta", "pool" -> "pool") }], [])
    }

  // ---- the world around the program
  pure def donate(w: World, dst: str, n: int): Exp = {
    pure val base = baseAccounts.contains(dst)
    pure val quote = quoteAccounts.contains(dst)
    if (base) done(if (dst == "trader0.b" or w.tok.getOr("trader0.b") < n or not(w.hasPool)) w else { ...w, tok: mv(w.tok, "trader0.b", dst, n) }, [], [])
    else if (quote) done(if (dst == "trader1.q" or w.tok.getOr("trader1.q") < n) w else { ...w, tok: mv(w.tok, "trader1.q", dst, n) }, [], [])
    else done(if (w.lam.getOr("eve") < n + 1000000000 or (dst == "pool" and not(w.hasPool))) w else { ...w, lam: mv(w.lam, "eve", dst, n) }, [], [])
  }

  // Earlier versions of the program let the completing swap run past the threshold; such pools still exist.
  pure def canOvershoot(w: World, n: int): bool =
    w.hasPool and complete(w) and w.tok.getOr("trader1.q") >= n and w.pool.quoteRes + n <= U64
      and w.pool.partSurp == 0 and w.pool.creSurp == 0 and w.pool.protSurp == 0
  pure def overshoot(w: World, n: int): Exp =
    done(if (canOvershoot(w, n)) { ...w, pool: { ...w.pool, quoteRes: w.pool.quoteRes + n }, tok: mv(w.tok, "trader1.q", "vault.q", n) } else w, [], [])

  // `prev`: the instructions executed before this one in the same transaction
  pure def step(w: World, ix: Ix, prev: List[Ix]): Exp =
    if (ix.sub != []) refuse(w, Set({ p: "C19", r: "an account was replaced" }))
    else match (ix.act) {
      | CreateConfig(p) => createConfig(w, p)
      | InitPool(x) => initPool(w, x.t22, x.creator, x.text)
      | Swap(a) => swapStep(w, ix, prev, a)
      | ClaimTrade(x) => claimTrade(w, x.side, x.a, x.b, x.by, x.baseTo, x.quoteTo)
      | ClaimProtocol(x) => claimProtocol(w, x.a, x.b, x.by)
      | Zap(x) => zap(w, x.isBase, x.amount, x.by, x.to, x.accept)
      | Surplus(x) => surplusStep(w, x.side, x.by, x.to)
      | WithdrawMigFee(x) => withdrawMigFee(w, x.flag, x.by, x.to)
      | ClaimCreationFee(x) => creationFee(w, x.side, x.by, x.to)
      | CreateLocker(x) => createLocker(w, x.evil)
      | V1Meta(_) => v1Meta(w)
      | V1Migrate(x) => v1Migrate(w, x.lp, x.evil, x.venue)
      | V1LockLp(x) => v1LockLp(w, x.owner, x.evil)
      | V1ClaimLp(x) => v1ClaimLp(w, x.owner)
      | V2Meta(_) => done(w, [], [])
      | V2Migrate(x) => v2Migrate(w, x.evil, x.second, x.venue)
      | Leftover(_) => leftoverStep(w)
      | TransferCreator(x) => transferCreator(w, x.to, x.by, x.meta)
      | CreateOperator(x) => createOperator(w, x.who, x.perm, x.by)
      | CloseOperator(x) => closeOperator(w, x.who, x.by)
      | CloseLegacy(x) => closeLegacy(w, x.by)
      | PartnerMeta(x) => partnerMeta(w, x.who, x.by, x.text)
      | PoolMeta(x) => poolMeta(w, x.by, x.text)
      | TwinSwap(_) => done(w, [], [])
      | OtherInit(_) => done(w, [], [])
      | Foreign(_) => done(w, [], [])
      | Warp(x) => done({ ...w, slot: w.slot + x.slots, ts: w.ts + x.secs }, [], [])
      | Donate(x) => donate(w, x.to, x.amount)
      | Overshoot(x) => overshoot(w, x.amount)
      | Inherit(_) => done(w, [], [])
    }
}
