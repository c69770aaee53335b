// The properties, judged on one executed instruction: from the state the implementation was in, what it did must be
// what the specification's transition does (projected to what the property speaks about), and the direct statements
// about the observed change must hold.
module props {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import config.* from "./config"
  import swap.* from "./swap"
  import migrate.* from "./migrate"
  import step.* from "./step"
  import wire.* from "./wire"
  import finish.* from "./finish"
  import ledger as led from "./ledger"

  type Verdict = { rel: bool, bad: Set[str] }
  pure val allProps: List[str] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33"]

  // the labels of the conditions that do not hold
  pure def broken(cs: List[(bool, str)]): Set[str] = cs.foldl(Set(), (a, c) => if (c._1) a else a.union(Set(c._2)))
  pure def none: Set[str] = Set()
  pure def same(c: bool, label: str): Set[str] = if (c) none else Set(label)

  pure def tag(a: Act): str = match (a) {
    | CreateConfig(_) => "CreateConfig" | InitPool(_) => "InitPool" | Swap(_) => "Swap" | ClaimTrade(_) => "ClaimTrade"
    | ClaimProtocol(_) => "ClaimProtocol" | Zap(_) => "Zap" | Surplus(_) => "Surplus" | WithdrawMigFee(_) => "WithdrawMigFee"
    | ClaimCreationFee(_) => "ClaimCreationFee" | CreateLocker(_) => "CreateLocker" | V1Meta(_) => "V1Meta" | V1Migrate(_) => "V1Migrate"
    | V1LockLp(_) => "V1LockLp" | V1ClaimLp(_) => "V1ClaimLp" | V2Meta(_) => "V2Meta" | V2Migrate(_) => "V2Migrate" | Leftover(_) => "Leftover"
    | TransferCreator(_) => "TransferCreator" | CreateOperator(_) => "CreateOperator" | CloseOperator(_) => "CloseOperator"
    | CloseLegacy(_) => "CloseLegacy" | PartnerMeta(_) => "PartnerMeta" | PoolMeta(_) => "PoolMeta" | Foreign(_) => "Foreign"
    | TwinSwap(_) => "TwinSwap" | OtherInit(_) => "OtherInit" | Warp(_) => "Warp" | Donate(_) => "Donate" | Overshoot(_) => "Overshoot" | Inherit(_) => "Inherit"
  }
  pure val noArgs: SwapArgs = { dir: 1, mode: 0, a0: 0, a1: 0, who: "eve", referral: "none", legacy: false }
  pure def argsOf(a: Act): SwapArgs = match (a) { | Swap(x) => x | _ => noArgs }
  pure val environment = Set("Foreign", "TwinSwap", "OtherInit", "Warp", "Donate", "Overshoot", "Inherit")
  // whose signature is missing on creator matters
  pure def creatorActs(x: Ix): bool = match (x.act) {
    | ClaimTrade(c) => c.side == "creator" | Surplus(c) => c.side == "creator" | WithdrawMigFee(c) => c.flag == 1
    | TransferCreator(_) => true | PoolMeta(_) => true | _ => false
  }

  // ---- differences between an observed and an expected state
  pure def poolDiff(a: Pool, b: Pool): Set[str] = broken([
    (a.cfg == b.cfg and a.creator == b.creator and a.baseMint == b.baseMint and a.baseVault == b.baseVault and a.quoteVault == b.quoteVault, "pool identity"),
    (a.baseRes == b.baseRes, "base reserve"), (a.quoteRes == b.quoteRes, "quote reserve"), (a.price == b.price, "price"),
    (a.protB == b.protB and a.protQ == b.protQ, "protocol fees"), (a.partB == b.partB and a.partQ == b.partQ, "partner fees"),
    (a.creB == b.creB and a.creQ == b.creQ, "creator fees"), (a.act == b.act and a.kind == b.kind, "activation"),
    (a.migrated == b.migrated and a.stage == b.stage, "stage"), (a.finish == b.finish, "completion time"),
    (a.partSurp == b.partSurp and a.protSurp == b.protSurp and a.creSurp == b.creSurp, "surplus flags"),
    (a.leftover == b.leftover, "leftover flag"), (a.migFeeBits == b.migFeeBits, "migration fee bits"),
    (a.creationBits == b.creationBits and a.legacyBits == b.legacyBits, "creation fee bits"),
    (a.totProtB == b.totProtB and a.totProtQ == b.totProtQ and a.totTradB == b.totTradB and a.totTradQ == b.totTradQ, "lifetime totals"),
    (a.hasSwap == b.hasSwap, "first swap flag"), (a.lmfBps == b.lmfBps and a.migProtB == b.migProtB and a.migProtQ == b.migProtQ, "protocol migration fee"),
    (a.vol == b.vol, "volatility")])
  pure def tokDiff(a: str -> int, b: str -> int, skip: Set[str]): Set[str] =
    a.keys().exclude(skip).filter(k => a.get(k) != b.getOr(k)).map(k => k)
  // lamports of wallets that are not paying for anything, and of the pool
  pure def payer(x: Ix): Set[str] = match (x.act) {
    | CreateLocker(y) => Set(y.by) | V1Meta(y) => Set(y.by) | V1Migrate(y) => Set(y.by) | V2Meta(y) => Set(y.by) | V2Migrate(y) => Set(y.by)
    | _ => Set()
  }
  pure def lamDiff(t: Trans, e: World): Set[str] =
    t.post.lam.keys().exclude(payer(t.ix).union(Set("other", "cranker"))).filter(k => t.post.lam.get(k) != e.lam.getOr(k)).map(k => k)
  pure def obsSame(a: List[Obs], b: List[Obs]): bool =
    a.length() == b.length() and a.foldl(Set(), (s, x) => s.union(Set(x))) == b.foldl(Set(), (s, x) => s.union(Set(x)))
  pure def calls(t: Trans): List[Obs] =
    t.res.calls.select(c => Set("zap", "locker", "v1.init", "v1.lock", "v2.init", "v2.initDyn", "v2.position", "v2.add", "v2.lock", "v2.vest").contains(c.name))
  pure def whole(t: Trans, e: Exp): Set[str] =
    poolDiff(t.post.pool, e.w.pool).union(tokDiff(t.post.tok, e.w.tok, Set())).union(lamDiff(t, e.w))
      .union(broken([(t.post.mint == e.w.mint, "mint"), (t.post.cfg == e.w.cfg, "configuration"), (t.post.v1 == e.w.v1, "v1 metadata"), (t.post.v2 == e.w.v2, "v2 pool"),
                     (obsSame(calls(t), e.calls), "calls of other programs")]))

  // ---- what an instruction leaves alone
  pure val THEIRS = Set("tcfg", "tpool", "tvault.b", "tvault.q", "tmint.b", "tmeta.b", "tv1meta")
  pure val OURS = Set("cfg", "pool", "vault.b", "vault.q", "mint.b", "meta.b", "v1meta")
  // every field, and every mark within a field, for itself
  pure def marks(a: Pool): List[(str, int)] = [
    ("base reserve", a.baseRes), ("quote reserve", a.quoteRes), ("price", a.price), ("activation", a.act), ("kind", a.kind),
    ("protocol base fee", a.protB), ("protocol quote fee", a.protQ), ("partner base fee", a.partB), ("partner quote fee", a.partQ), ("creator base fee", a.creB), ("creator quote fee", a.creQ),
    ("partner surplus mark", a.partSurp), ("protocol surplus mark", a.protSurp), ("creator surplus mark", a.creSurp), ("leftover mark", a.leftover),
    ("stage", a.stage), ("migrated", a.migrated), ("completion time", a.finish), ("first swap mark", a.hasSwap),
    ("total protocol base", a.totProtB), ("total protocol quote", a.totProtQ), ("total trading base", a.totTradB), ("total trading quote", a.totTradQ),
    ("migration fee rate", a.lmfBps), ("migration base fee", a.migProtB), ("migration quote fee", a.migProtQ),
    ("migration fee mark 0", a.migFeeBits % 2), ("migration fee mark 1", a.migFeeBits / 2 % 2), ("migration fee mark 2", a.migFeeBits / 4 % 2), ("migration fee other marks", a.migFeeBits / 8),
    ("creation fee mark 0", a.creationBits % 2), ("creation fee mark 1", a.creationBits / 2 % 2), ("creation fee other marks", a.creationBits / 4),
    ("legacy fee mark 0", a.legacyBits % 2), ("legacy fee mark 1", a.legacyBits / 2 % 2), ("legacy fee other marks", a.legacyBits / 4)]
  pure def fieldDiff(a: Pool, b: Pool): Set[str] = {
    pure val x = marks(a)
    pure val y = marks(b)
    x.indices().filter(i => x[i]._2 != y[i]._2).map(i => x[i]._1)
      .union(broken([(a.cfg == b.cfg and a.baseMint == b.baseMint and a.baseVault == b.baseVault and a.quoteVault == b.quoteVault, "pool identity"),
        (a.creator == b.creator, "creator"), (a.vol == b.vol, "volatility")]))
  }
  pure def frame(t: Trans, e: Exp): Set[str] = {
    pure val g = tag(t.ix.act)
    pure val apart = Set("TwinSwap", "OtherInit", "Foreign").contains(g)
    if (not(t.res.ok)) none
    else if (not(apart) and environment.contains(g)) none
    else {
      pure val a = t.pre
      pure val b = t.post
      pure val x = e.w
      pure val reached = broken([
        (apart or t.res.touched.intersect(THEIRS) == Set(), "another launch changed"),
        (not(apart) or t.res.touched.intersect(OURS) == Set(), "changed by what happens on another launch"),
        (apart or not(t.ix.sub.indices().exists(i => THEIRS.contains(t.ix.sub[i].repl))), "an account of another launch was accepted"),
        (g == "CreateConfig" or not(t.res.touched.contains("cfg")), "the configuration changed")])
      if (not(e.ok) or t.ix.sub != []) reached
      else reached
        .union(if (not(a.hasPool)) none else fieldDiff(b.pool, a.pool).exclude(fieldDiff(x.pool, a.pool)))
        .union(tokDiff(b.tok, a.tok, if (apart) Set("eve.b", "eve.q", "tvault.b", "tvault.q") else Set()).exclude(tokDiff(x.tok, a.tok, Set())))
        .union(b.lam.keys().exclude(payer(t.ix).union(Set("other", "cranker"))).filter(k => a.lam.getOr(k) == x.lam.getOr(k) and b.lam.get(k) != a.lam.getOr(k)))
        .union(broken([
          (a.hasCfg implies b.cfg == a.cfg, "configuration"), (a.mint == x.mint implies b.mint == a.mint, "mint"), (a.v1 == x.v1 implies b.v1 == a.v1, "v1 metadata"),
          (a.v2 == x.v2 implies b.v2 == a.v2, "v2 pool"), (a.ops == x.ops implies b.ops == a.ops, "operators"), (a.metas == x.metas implies b.metas == a.metas, "records"),
          (a.texts == x.texts implies b.texts == a.texts, "texts")]))
    }
  }

  // ---- swaps
  pure val noObs: Obs = { name: "", n: Map(), s: Map() }
  pure def reported(t: Trans): Obs = t.res.events.foldl(noObs, (a, x) => if (x.name == "swap2") x else a)
  // what the swap did, as the pool's books and its report have it
  type Did = { incl: int, excl: int, out: int, ref: int, trade: int, prot: int, fee: int, dB: int, dQ: int, fB: int, fQ: int }
  pure def did(t: Trans): Did = {
    pure val r = reported(t)
    pure val g = r.n
    {
      incl: getOr(g, "incl"), excl: getOr(g, "excl"), out: getOr(g, "out"), ref: getOr(g, "ref"), trade: getOr(g, "trade"), prot: getOr(g, "prot"),
      fee: getOr(g, "ref") + getOr(g, "trade") + getOr(g, "prot"),
      dB: t.post.pool.baseRes - t.pre.pool.baseRes, dQ: t.post.pool.quoteRes - t.pre.pool.quoteRes,
      fB: baseFees(t.post.pool) - baseFees(t.pre.pool), fQ: quoteFees(t.post.pool) - quoteFees(t.pre.pool)
    }
  }
  // the fee the specification charges on the amounts that were traded
  pure def dueFee(t: Trans, a: SwapArgs, d: Did): int = {
    pure val c = t.pre.cfg
    pure val p = t.pre.pool
    pure val v = refresh(c.dyn, p.vol, p.price, t.pre.ts)
    pure val first = firstSwap(t.pre, t.ix, t.prev, a)
    pure val at = now(t.pre)
    pure val mode = modeOf(a)
    if (mode > EXACT_OUT) FAIL
    else if (onInput(c, a.dir)) {
      pure val r0 = rateIncl(c, p, v, at, a.dir, a.a0, first)
      if (mode == EXACT_OUT or d.incl != a.a0 or r0 == FAIL or walkIn(c, p.price, a.dir, a.a0 - feeOf(r0, a.a0)).left != 0) {
        pure val r = rateExcl(c, p, v, at, a.dir, d.dQ, first)
        if (r == FAIL) FAIL else (if (mode == PARTIAL) min(a.a0, inclOf(r, d.dQ)) else inclOf(r, d.dQ)) - d.dQ
      } else feeOf(r0, a.a0)
    } else if (mode == EXACT_OUT) {
      pure val r = rateExcl(c, p, v, at, a.dir, a.a0, first)
      if (r == FAIL) FAIL else inclOf(r, a.a0) - a.a0
    } else {
      pure val r = rateIncl(c, p, v, at, a.dir, a.a0, first)
      if (r == FAIL) FAIL else feeOf(r, if (a.dir == BUY) -d.dB else -d.dQ)
    }
  }
  pure def feeBad(t: Trans, a: SwapArgs): Set[str] = {
    pure val d = did(t)
    if (d.fee == dueFee(t, a, d)) none else Set("fee")
  }

  pure def swapC02(t: Trans, a: SwapArgs): Set[str] = {
    pure val d = did(t)
    pure val buy = a.dir == BUY
    pure val fb = inBase(t.pre.cfg, a.dir)
    pure val i = if (buy) quoteOf.get(a.who) else baseOf.get(a.who)
    pure val o = if (buy) baseOf.get(a.who) else quoteOf.get(a.who)
    pure val vi = if (buy) "vault.q" else "vault.b"
    pure val vo = if (buy) "vault.b" else "vault.q"
    pure val tok1 = mv(mv(t.pre.tok, i, vi, d.incl), vo, o, d.out)
    pure val tok2 = if (hasRef(a)) mv(tok1, if (fb) "vault.b" else "vault.q", a.referral, d.ref) else tok1
    pure val back = if (a.referral == "vault.b" or a.referral == "vault.q") d.ref else 0
    pure val vb = t.post.tok.get("vault.b") - t.pre.tok.get("vault.b")
    pure val vq = t.post.tok.get("vault.q") - t.pre.tok.get("vault.q")
    pure val frame = { ...t.pre.pool, baseRes: t.post.pool.baseRes, quoteRes: t.post.pool.quoteRes, price: t.post.pool.price, vol: t.post.pool.vol,
      protB: t.post.pool.protB, protQ: t.post.pool.protQ, partB: t.post.pool.partB, partQ: t.post.pool.partQ, creB: t.post.pool.creB, creQ: t.post.pool.creQ,
      totProtB: t.post.pool.totProtB, totProtQ: t.post.pool.totProtQ, totTradB: t.post.pool.totTradB, totTradQ: t.post.pool.totTradQ,
      finish: t.post.pool.finish, stage: t.post.pool.stage, hasSwap: t.post.pool.hasSwap }
    tokDiff(t.post.tok, tok2, Set()).union(poolDiff(t.post.pool, frame)).union(broken([
      (d.dB + d.fB == vb - (if (fb) back else 0), "base vault and books differ"),
      (d.dQ + d.fQ == vq - (if (fb) 0 else back), "quote vault and books differ"),
      (t.post.lam == t.pre.lam, "lamports moved"),
      (t.post.mint == t.pre.mint, "mint")]))
  }
  pure def swapC03(t: Trans, a: SwapArgs): Set[str] = {
    pure val d = did(t)
    pure val c = t.pre.cfg
    pure val p = t.pre.pool.price
    pure val mode = modeOf(a)
    pure val buy = a.dir == BUY
    pure val w = if (mode == EXACT_OUT) walkOut(c, p, a.dir, if (buy) -d.dB else -d.dQ) else walkIn(c, p, a.dir, if (buy) d.dQ else d.dB)
    pure val other = if (mode == EXACT_OUT) (if (buy) d.dQ else d.dB) else (if (buy) -d.dB else -d.dQ)
    broken([(w.ok and w.left == 0, "no such trade on the curve"), (w.amt == other, "amount"), (w.price == t.post.pool.price, "price")])
  }
  pure def swapC04(t: Trans, a: SwapArgs): Set[str] = {
    pure val c = t.pre.cfg
    pure val p = t.pre.pool.price
    pure val q = t.post.pool.price
    pure val d = did(t)
    pure val ex = exact(c.curve, c.start, min(p, q), max(p, q))
    broken([
      (q >= c.start and q <= c.migPrice, "price out of range"),
      (if (a.dir == BUY) q >= p else q <= p, "price moved the wrong way"),
      (if (a.dir == BUY) geF(d.dQ, ex.q) else leF(-d.dQ, ex.q), "quote against the exact curve"),
      (if (a.dir == BUY) leF(-d.dB, ex.b) else geF(d.dB, ex.b), "base against the exact curve")])
  }
  pure def swapC05(t: Trans, a: SwapArgs, e: Exp): Set[str] = {
    pure val d = did(t)
    pure val mode = modeOf(a)
    pure val i = if (a.dir == BUY) quoteOf.get(a.who) else baseOf.get(a.who)
    pure val o = if (a.dir == BUY) baseOf.get(a.who) else quoteOf.get(a.who)
    pure val own = if (a.referral == i or a.referral == o) d.ref else 0
    pure val paid = t.pre.tok.get(i) - t.post.tok.get(i) + (if (a.referral == i) own else 0)
    pure val got = t.post.tok.get(o) - t.pre.tok.get(o) - (if (a.referral == o) own else 0)
    broken([
      (mode != EXACT_IN or paid == a.a0, "not the whole input"),
      (mode != EXACT_OUT or got == a.a0, "not the exact output"),
      (mode != PARTIAL or paid <= a.a0, "more than the input"),
      (mode != PARTIAL or not(e.ok) or t.post.tok.get(i) == e.w.tok.get(i), "not as much as the curve can take"),
      (if (mode == EXACT_OUT) paid <= a.a1 else got >= a.a1, "slippage")])
  }
  pure def swapC06(t: Trans, a: SwapArgs): Set[str] = {
    pure val d = did(t)
    pure val fb = inBase(t.pre.cfg, a.dir)
    pure val buy = a.dir == BUY
    // the fee as the difference of what changed hands
    pure val gap = if (onInput(t.pre.cfg, a.dir)) d.incl - d.dQ else (if (buy) -d.dB else -d.dQ) - d.out
    feeBad(t, a).union(broken([
      (gap == d.fee, "fee and amounts differ"),
      (if (fb) d.fB == d.fee - d.ref and d.fQ == 0 else d.fQ == d.fee - d.ref and d.fB == 0, "fee in the wrong token")]))
  }
  pure def swapC07(t: Trans, a: SwapArgs): Set[str] = {
    pure val d = did(t)
    pure val fb = inBase(t.pre.cfg, a.dir)
    pure val gap = if (onInput(t.pre.cfg, a.dir)) d.incl - d.dQ else (if (a.dir == BUY) -d.dB else -d.dQ) - d.out
    pure val sp = split(gap, hasRef(a))
    pure val cre = pct(sp.trade, t.pre.cfg.creatorPct)
    pure val p = t.pre.pool
    pure val q = t.post.pool
    pure val b = b2i(fb)
    pure val k = 1 - b
    broken([
      (d.trade == sp.trade and d.prot == sp.prot and d.ref == sp.ref, "reported parts"),
      (q.protB - p.protB == b * sp.prot and q.protQ - p.protQ == k * sp.prot, "protocol part"),
      (q.creB - p.creB == b * cre and q.creQ - p.creQ == k * cre, "creator part"),
      (q.partB - p.partB == b * (sp.trade - cre) and q.partQ - p.partQ == k * (sp.trade - cre), "partner part"),
      (q.totProtB - p.totProtB == b * sp.prot and q.totProtQ - p.totProtQ == k * sp.prot, "lifetime protocol fee"),
      (q.totTradB - p.totTradB == b * sp.trade and q.totTradQ - p.totTradQ == k * sp.trade, "lifetime trading fee"),
      (not(hasRef(a)) or Set(quoteOf.get(a.who), baseOf.get(a.who), "vault.b", "vault.q").contains(a.referral)
        or t.post.tok.getOr(a.referral) - t.pre.tok.getOr(a.referral) == sp.ref, "referral payment")])
  }
  pure def quoteSame(q: Quote, d: Did, left: int, price: int, noRef: bool): Set[str] = broken([
    (q.ok, "quote refused"), (q.incl == d.incl and q.excl == d.excl and q.left == left, "quoted input"), (q.out == d.out, "quoted output"),
    (q.price == price, "quoted price"), (q.trade == d.trade, "quoted trading fee"),
    (if (noRef) q.prot + q.ref == d.prot + d.ref else q.prot == d.prot and q.ref == d.ref, "quoted protocol fee")])
  pure def swapC27(t: Trans, a: SwapArgs): Set[str] = {
    pure val c = t.pre.cfg
    pure val p = t.pre.pool
    pure val mode = modeOf(a)
    if (not(t.quote.has) or not(t.pre.hasPool)) none
    else {
      pure val first = firstSwap(t.pre, t.ix, t.prev, a)
      pure val q = if (first) t.quote.first else t.quote.later
      pure val idle = refresh(c.dyn, p.vol, p.price, t.pre.ts) == p.vol
      if (t.res.ok and idle) quoteSame(q, did(t), getOr(reported(t).n, "left"), t.post.pool.price, mode == EXACT_OUT)
      else if (a.a0 == 0 or complete(t.pre)) broken([(not(t.quote.first.ok) and not(t.quote.later.ok), "quoted an impossible trade")])
      else {
        pure val x = trade(c, p, p.vol, now(t.pre), a.dir, mode, a.a0, hasRef(a) and mode != EXACT_OUT, first)
        if (not(x.ok)) broken([(not(q.ok), "quoted an impossible trade")])
        else quoteSame(q, { incl: x.incl, excl: x.excl, out: x.out, ref: x.sp.ref, trade: x.sp.trade, prot: x.sp.prot, fee: x.fee, dB: 0, dQ: 0, fB: 0, fQ: 0 },
          x.left, x.price, false)
      }
    }
  }

  // ---- solvency
  // the abstract books (ledger.qnt): every step of the program must be one they allow
  pure def books(w: World): led::L = {
    pure val p = w.pool
    pure val c = w.cfg
    pure val done_ = p.stage != TRADING
    { stage: p.stage, vB: getOr(w.tok, "vault.b"), vQ: getOr(w.tok, "vault.q"), rB: p.baseRes, rQ: p.quoteRes,
      thr: c.migQuote, migQ: migQuoteAmount(c.migQuote, c.migFeePct), mfP: partnerMigFee(c), mfC: creatorMigFee(c),
      need: if (isComp(c)) c.migBase else 0, lv: vestTotal(c.lv),
      protB: p.protB, protQ: p.protQ, partB: p.partB, partQ: p.partQ, creB: p.creB, creQ: p.creQ, mB: p.migProtB, mQ: p.migProtQ,
      sP: if (done_) partnerSurplus(w) else 0, sC: if (done_) creatorSurplus(w) else 0, sR: if (done_) protocolSurplus(w) else 0,
      paidP: p.partSurp != 0, paidC: p.creSurp != 0, paidR: p.protSurp != 0,
      paidMP: bit(p.migFeeBits, BIT_PARTNER), paidMC: bit(p.migFeeBits, BIT_CREATOR) }
  }
  pure def solvent(w: World): Set[str] =
    if (not(w.hasPool)) none
    else {
      pure val b = books(w)
      broken([(b.vB >= led::oweB(b), "base vault short"), (b.vQ >= led::oweQ(b), "quote vault short"), (led::inv(b), "books out of order")])
    }
  pure def onBooks(t: Trans): Set[str] =
    if (not(t.post.hasPool)) none
    else if (not(t.pre.hasPool)) same(led::fresh(books(t.post)), "not how a pool begins")
    else if (match (t.ix.act) { | Overshoot(_) => true | _ => false }) none
    else same(led::allowed(books(t.pre), books(t.post)), "a step the books do not allow")

  // ---- properties that answer for an instruction being refused for no reason
  pure def owners(t: Trans, e: Exp): Set[str] = {
    pure val g = tag(t.ix.act)
    pure val a = argsOf(t.ix.act)
    pure val c = t.pre.cfg
    pure val base =
      if (g == "Swap") Set("C02", "C05", "C03", if (limited(t.pre, a.dir)) "C09" else "C02", if (firstSwap(t.pre, t.ix, t.prev, a)) "C11" else "C02",
        if (c.dyn.on) "C10" else "C02", if (c.base.bmode != LIMITER and c.base.f2 > 0) "C08" else "C02", if (complete(e.w)) "C12" else "C02",
        if (c.base.bmode == LIMITER) "C09" else "C02", if (c.firstMin == 1) "C11" else "C02", "C06")
      else if (g == "CreateConfig") Set("C24")
      else if (g == "InitPool") Set("C20", "C18", "C30")
      else if (g == "ClaimTrade") Set("C14", "C01")
      else if (g == "ClaimProtocol" or g == "Zap") Set("C17", "C01", "C29", if (complete(t.pre)) "C15" else "C17")
      else if (g == "Surplus") Set("C15", "C01", "C12")
      else if (g == "WithdrawMigFee") Set("C16", "C01", "C12")
      else if (g == "ClaimCreationFee") Set("C18", "C01")
      else if (g == "CreateLocker") Set("C25", "C13", "C01")
      else if (g == "V1Meta" or g == "V1LockLp" or g == "V1ClaimLp") Set("C22")
      else if (g == "V1Migrate") Set("C22", "C13", "C01", "C21")
      else if (g == "V2Migrate") Set("C23", "C13", "C01", "C21")
      else if (g == "V2Meta") Set("C23")
      else if (g == "Leftover") Set("C21", "C01")
      else if (g == "TransferCreator") Set("C26")
      else if (g == "CreateOperator" or g == "CloseOperator" or g == "CloseLegacy") Set("C29")
      else if (g == "PartnerMeta" or g == "PoolMeta") Set("C19", "C30")
      else Set("C01")
    if (creatorActs(t.ix)) base.union(Set("C26")) else base
  }

  // the part of a stored configuration a property relies on
  pure def cfgSame(prop: str, a: Cfg, b: Cfg): bool =
    if (prop == "C03" or prop == "C04") a.curve == b.curve and a.start == b.start and a.migPrice == b.migPrice
    else if (prop == "C06") a.base == b.base and a.dyn == b.dyn and a.collect == b.collect and a.actType == b.actType
    else if (prop == "C07" or prop == "C14") a.creatorPct == b.creatorPct and a.partner == b.partner
    else if (prop == "C08" or prop == "C09") a.base == b.base and a.actType == b.actType
    else if (prop == "C10") a.dyn == b.dyn
    else if (prop == "C11") a.firstMin == b.firstMin
    else if (prop == "C12") a.migQuote == b.migQuote and a.migBase == b.migBase and a.lv == b.lv
    else if (prop == "C13") a.migOpt == b.migOpt and a.lv == b.lv
    else if (prop == "C15") a.creatorPct == b.creatorPct and a.migQuote == b.migQuote and a.partner == b.partner
    else if (prop == "C16") a.migFeePct == b.migFeePct and a.creatorMigPct == b.creatorMigPct and a.migQuote == b.migQuote and a.partner == b.partner
    else if (prop == "C18") a.creationFee == b.creationFee and a.partner == b.partner
    else if (prop == "C19") a.partner == b.partner and a.leftoverTo == b.leftoverTo and a.quoteMint == b.quoteMint
    else if (prop == "C20") a.decimals == b.decimals and a.tokenType == b.tokenType and a.tokAuth == b.tokAuth and a.fixedSupply == b.fixedSupply
      and a.preSupply == b.preSupply and a.start == b.start
    else if (prop == "C21") a.fixedSupply == b.fixedSupply and a.preSupply == b.preSupply and a.postSupply == b.postSupply and a.leftoverTo == b.leftoverTo
    else if (prop == "C22") a.pPerm == b.pPerm and a.pLiq == b.pLiq and a.cPerm == b.cPerm and a.cLiq == b.cLiq and a.migFeeOpt == b.migFeeOpt
      and a.migBase == b.migBase and a.migQuote == b.migQuote and a.migFeePct == b.migFeePct
    else if (prop == "C23") a.pPerm == b.pPerm and a.pLiq == b.pLiq and a.cPerm == b.cPerm and a.cLiq == b.cLiq and a.migFeeOpt == b.migFeeOpt
      and a.migPrice == b.migPrice and a.migQuote == b.migQuote and a.migFeePct == b.migFeePct and a.pv == b.pv and a.cv == b.cv
      and a.mCollect == b.mCollect and a.mDyn == b.mDyn and a.mFeeBps == b.mFeeBps and a.mBaseMode == b.mBaseMode and a.mComp == b.mComp and a.mSched == b.mSched
    else if (prop == "C25") a.lv == b.lv
    else true
  // the part of a pool that only trading may change and how it begins, for the properties about trading
  pure def tradingSame(prop: str, a: Pool, b: Pool): bool =
    if (prop == "C04") a.price == b.price
    else if (prop == "C07") a.totProtB == b.totProtB and a.totProtQ == b.totProtQ and a.totTradB == b.totTradB and a.totTradQ == b.totTradQ
    else if (prop == "C08" or prop == "C09") a.act == b.act
    else if (prop == "C10") a.vol == b.vol
    else if (prop == "C11") a.hasSwap == b.hasSwap
    else if (prop == "C17" or prop == "C22" or prop == "C23") a.lmfBps == b.lmfBps
    else true

  // ---- what each property says about an instruction that succeeded as it should
  pure def accepted(prop: str, t: Trans, e: Exp): Set[str] =
    if (tag(t.ix.act) == "CreateConfig" and not(cfgSame(prop, t.post.cfg, e.w.cfg))) Set("stored configuration")
    else if (tag(t.ix.act) != "Swap" and t.post.hasPool and not(tradingSame(prop, t.post.pool, e.w.pool))) Set("changed without a trade")
    else particular(prop, t, e)
  pure def particular(prop: str, t: Trans, e: Exp): Set[str] = {
    pure val g = tag(t.ix.act)
    pure val p = t.pre.pool
    pure val q = t.post.pool
    pure val live = t.post.hasPool
    pure val sw = g == "Swap"
    pure val env = environment.contains(g)
    if (prop == "C13") same(q.stage == e.w.pool.stage and q.migrated == e.w.pool.migrated and q.stage >= p.stage, "stage")
    else if (prop == "C12") {
      if (sw) {
        pure val full = q.quoteRes >= t.pre.cfg.migQuote
        same(q.stage == (if (full) (if (vestTotal(t.pre.cfg.lv) > 0) POST else READY) else p.stage), "stage after the swap")
          .union(same(q.finish == (if (full) t.pre.ts else p.finish), "completion time")).union(same(p.quoteRes < t.pre.cfg.migQuote, "traded after completion"))
      }
      else if (g == "InitPool" or g == "Overshoot") none
      else same(q.quoteRes == p.quoteRes and q.baseRes == p.baseRes and q.price == p.price and q.finish == p.finish, "reserves changed without a trade")
    }
    else if (prop == "C14") {
      if (g == "ClaimTrade") whole(t, e)
      else if (sw) none
      else same(q.partB == p.partB and q.partQ == p.partQ and q.creB == p.creB and q.creQ == p.creQ, "accrued fees changed")
    }
    else if (prop == "C15") (if (g == "Surplus" or (complete(t.pre) and (g == "ClaimProtocol" or g == "Zap"))) whole(t, e) else same(q.partSurp == p.partSurp and q.creSurp == p.creSurp and q.protSurp == e.w.pool.protSurp, "surplus flags"))
    else if (prop == "C16") (if (g == "WithdrawMigFee") whole(t, e) else same(q.migFeeBits == p.migFeeBits, "migration fee bits")
      .union(if (g == "V1Migrate" or g == "V2Migrate") same(getOr(t.post.tok, "vault.q") == getOr(e.w.tok, "vault.q") and q.migProtQ == e.w.pool.migProtQ, "quote taken into the migration") else none))
    else if (prop == "C17") {
      if (g == "ClaimProtocol" or g == "Zap") whole(t, e)
      else if (sw) none
      else same(q.protB == p.protB and q.protQ == p.protQ and q.protSurp == p.protSurp, "protocol fees changed")
        .union(same(q.migProtB == e.w.pool.migProtB and q.migProtQ == e.w.pool.migProtQ, "protocol migration fee"))
    }
    else if (prop == "C18") {
      if (g == "ClaimCreationFee") whole(t, e)
      else same(q.creationBits == e.w.pool.creationBits and q.legacyBits == e.w.pool.legacyBits, "creation fee bits").union(same(getOr(t.post.lam, "pool") == getOr(e.w.lam, "pool"), "lamports of the pool"))
    }
    else if (prop == "C19") (if (g == "PartnerMeta" or g == "PoolMeta") whole(t, e).union(same(t.post.metas == e.w.metas, "metadata accounts")) else none)
    else if (prop == "C20") {
      if (g == "InitPool") whole(t, e)
      else if (not(t.pre.hasPool)) none
      else same(t.post.mint.supply <= t.pre.mint.supply, "tokens created")
        .union(same({ ...t.post.mint, supply: 0 } == { ...t.pre.mint, supply: 0 }, "mint changed"))
    }
    else if (prop == "C21") {
      if (g == "Leftover") whole(t, e)
      else if (g == "V1Migrate" or g == "V2Migrate") same(t.post.mint.supply == e.w.mint.supply, "supply after the migration")
        .union(same(t.pre.mint.supply - t.post.mint.supply <= t.pre.tok.get("vault.b") - t.post.tok.get("vault.b"), "burned more than left the vault"))
        .union(same(t.post.tok.get("vault.b") == e.w.tok.get("vault.b"), "left in the vault"))
      else if (not(t.pre.hasPool)) none
      else same(t.post.mint.supply == t.pre.mint.supply and q.leftover == p.leftover, "supply or leftover flag")
    }
    else if (prop == "C22") (if (Set("V1Meta", "V1Migrate", "V1LockLp", "V1ClaimLp").contains(g)) whole(t, e) else same(t.post.v1 == t.pre.v1, "v1 metadata"))
    else if (prop == "C23") (if (g == "V2Migrate" or g == "V2Meta") whole(t, e) else same(t.post.v2 == t.pre.v2, "v2 pool"))
    else if (prop == "C24") same(t.post.cfg == e.w.cfg, "configuration")
    else if (prop == "C25") (if (g == "CreateLocker") whole(t, e)
      else if (sw) same(vestTotal(t.pre.cfg.lv) == 0 or (q.finish == e.w.pool.finish and q.stage == e.w.pool.stage), "what the locker depends on")
      else same(getOr(t.post.tok, "locker.b") == getOr(t.pre.tok, "locker.b") or g == "Donate", "locker"))
    else if (prop == "C26") (if (g == "TransferCreator") whole(t, e) else if (g == "InitPool") none else same(q.creator == p.creator, "creator"))
    else if (prop == "C28") (if (sw and poolDiff(q, e.w.pool) != Set()) none else if (env) none else same(obsSame(t.res.events, e.ev), "events"))
    else if (prop == "C30") same(t.post.texts == e.w.texts, "text").union(same(t.post.metas == e.w.metas, "metadata accounts"))
      .union(same(t.post.mint.updateAuth == e.w.mint.updateAuth and t.post.mint.mutable == e.w.mint.mutable and t.post.mint.pointer == e.w.mint.pointer and t.post.mint.pointsTo == e.w.mint.pointsTo, "who may change the text"))
    else if (prop == "C29") same(t.post.ops == e.w.ops, "operators").union(if (g == "CloseLegacy") same(t.post.metas == e.w.metas, "legacy operator") else none)
    else none
  }
  // what each property says about a swap that was executed, whatever the specification thinks of it
  pure def swapped(prop: str, t: Trans, e: Exp): Set[str] = {
    pure val a = argsOf(t.ix.act)
    pure val c = t.pre.cfg
    if (prop == "C02") swapC02(t, a)
    else if (prop == "C03") swapC03(t, a)
    else if (prop == "C04") swapC04(t, a)
    else if (prop == "C05") swapC05(t, a, e)
    else if (prop == "C06") swapC06(t, a)
    else if (prop == "C07") swapC07(t, a)
    else if (prop == "C08") (if (c.base.bmode == LIMITER) none else feeBad(t, a))
    else if (prop == "C09") (if (c.base.bmode == LIMITER) feeBad(t, a) else none)
    else if (prop == "C10") (if (c.dyn.on) feeBad(t, a) else none).union(same(
        t.post.pool.vol == advance(c.dyn, refresh(c.dyn, t.pre.pool.vol, t.pre.pool.price, t.pre.ts), t.pre.pool.price, t.post.pool.price, t.pre.ts), "volatility"))
    else if (prop == "C11") (if (c.firstMin == 1 or t.pre.pool.hasSwap == 0) feeBad(t, a) else none).union(same(t.post.pool.hasSwap == 1, "first swap flag"))
    else none
  }

  // does the instruction say anything about the property beyond being unrelated?
  pure def relevant(prop: str, t: Trans, e: Exp): bool = {
    pure val g = tag(t.ix.act)
    pure val sw = g == "Swap" and t.res.ok
    pure val c = t.pre.cfg
    if (prop == "C01") t.post.hasPool and not(environment.contains(g))
    else if (prop == "C02" or prop == "C03" or prop == "C04" or prop == "C06" or prop == "C07") sw
    else if (prop == "C05") g == "Swap"
    else if (prop == "C08") sw and c.base.bmode != LIMITER and c.base.f2 > 0
    else if (prop == "C09") g == "Swap" and c.base.bmode == LIMITER
    else if (prop == "C10") sw and c.dyn.on
    else if (prop == "C11") sw and (c.firstMin == 1 or t.pre.pool.hasSwap == 0)
    else if (prop == "C12") (sw and complete(t.post)) or (t.pre.hasPool and complete(t.pre)) or e.why.exists(y => y.p == "C12")
    else if (prop == "C13") t.post.pool.stage != t.pre.pool.stage or e.why.exists(y => y.p == "C13")
    else if (prop == "C19") e.why.exists(y => y.p == "C19")
    else if (prop == "C27") g == "Swap" and t.quote.has
    else if (prop == "C28") t.res.events.length() > 0
    else if (prop == "C32") due(t.pre, t.ix)
    else if (prop == "C33") t.res.ok and not(Set("Warp", "Donate", "Overshoot", "Inherit").contains(g))
    else if (prop == "C31") t.wire.on and (t.res.ok or t.wire.err.name != "") and not(environment.contains(g))
    else owners(t, e).contains(prop) or e.why.exists(y => y.p == prop)
  }

  pure def attacked(t: Trans, e: Exp): Exp =
    if (t.ix.sub == []) e
    // the instruction's own properties are violated as well when a replaced account is accepted
    else { ...e, why: e.why.union(owners(t, e).map(p => { p: p, r: "an account was replaced" })) }

  pure def verdict(prop: str, t: Trans, e0: Exp): Verdict =
    if (tag(t.ix.act) == "Inherit") { rel: false, bad: none } else executed(prop, t, e0)
  pure def executed(prop: str, t: Trans, e0: Exp): Verdict = {
    pure val e = attacked(t, e0)
    pure val sw = tag(t.ix.act) == "Swap"
    pure val quotes = if (prop == "C27" and sw and t.ix.sub == []) swapC27(t, argsOf(t.ix.act)) else none
    pure val bad =
      if (not(t.res.ok)) (if (e.ok and owners(t, e).contains(prop)) Set("refused without a reason")
        else if (prop == "C32" and due(t.pre, t.ix)) Set("the launch cannot go on") else none)
      else {
        pure val extra = if (e.ok) none else e.why.filter(y => y.p == prop).map(y => y.r)
        pure val direct = if (sw and t.ix.sub == []) swapped(prop, t, e) else none
        pure val rest = if (e.ok) accepted(prop, t, e) else none
        pure val money = if (prop == "C01") solvent(t.post).union(onBooks(t)) else none
        extra.union(direct).union(rest).union(money)
      }
    pure val bytes = if (prop == "C31" and t.wire.on) wireFaults(t) else none
    pure val spill = if (prop == "C33") frame(t, e) else none
    { rel: relevant(prop, t, e), bad: bad.union(quotes).union(bytes).union(spill) }
  }
  pure def judge(prop: str, t: Trans): Verdict = {
    pure val v = verdict(prop, t, step(t.pre, t.ix, t.prev))
    if (prop == "C32" and t.res.ok and ended(t.post)) { ...v, bad: v.bad.union(abandoned(t.post)) } else v
  }
  pure def judgeAll(t: Trans): List[(str, Verdict)] = {
    pure val e = step(t.pre, t.ix, t.prev)
    allProps.foldl([], (a, p) => { pure val v = verdict(p, t, e) if (v.bad == Set()) a else a.append((p, v)) })
  }
  pure def expected(w: World, ix: Ix, prev: List[Ix]): Exp = step(w, ix, prev)
}
