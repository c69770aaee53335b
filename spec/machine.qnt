// The launch as a state machine: from an empty world, every generated transaction takes the world to what `step` says.
// Besides the world it carries what has happened so far (`Past`), so that properties of whole histories can be stated.
// These are checked on the specification (`quint run --invariant`); that the program takes the specification's steps is
// what the conformance checks establish, step by step.
module machine {
  import num.* from "./num"
  import curve.* from "./curve"
  import types.* from "./types"
  import fees.* from "./fees"
  import config.* from "./config"
  import migrate.* from "./migrate"
  import step.* from "./step"
  import genp.* from "./genp"
  import gen.* from "./gen"
  import check.* from "./check"
  import props.* from "./props"
  import ledger as led from "./ledger"

  pure def empty(slot: int, ts: int, t22: bool, quoteKind: int): World =
    { cfg: { actType: 0, base: { bmode: 0, cliff: 0, f1: 0, f2: 0, f3: 0 }, cLiq: 0, cPerm: 0, collect: 0, creationFee: 0, creatorMigPct: 0, creatorPct: 0, curve: [], cv: { bps: 0, cliff: 0, freq: 0, n: 0, on: false, pct: 0 }, decimals: 0, dyn: { bin: 0, binQ: 0, decay: 0, filter: 0, maxVol: 0, on: false, red: 0, vfc: 0 }, firstMin: 0, fixedSupply: 0, id: "none", leftoverTo: "none", lv: { cliffAmt: 0, cliffDur: 0, freq: 0, n: 0, per: 0 }, mBaseMode: 0, mCollect: 0, mComp: 0, mDyn: 0, mFeeBps: 0, mSched: { expiry: 0, n: 0, red: 0, step: 0 }, migBase: 0, migFeeOpt: 0, migFeePct: 0, migOpt: 0, migPrice: 0, migQuote: 0, pLiq: 0, pPerm: 0, partner: "none", postSupply: 0, preSupply: 0, pv: { bps: 0, cliff: 0, freq: 0, n: 0, on: false, pct: 0 }, quoteFlag: 0, quoteMint: "none", start: 0, swapBase: 0, tokAuth: 0, tokenType: 0 },
      hasCfg: false,
      hasPool: false,
      lam: Map("admin0" -> 10000000000000, "admin1" -> 10000000000000, "authority" -> 2000000000, "cranker" -> 9999971089680, "creator" -> 10000000000000, "eve" -> 10000000000000, "heir" -> 10000000000000, "leftover" -> 10000000000000, "op0" -> 10000000000000, "op1" -> 10000000000000, "other" -> 69452330, "partner" -> 10000000000000, "pool" -> 0, "referrer" -> 10000000000000, "trader0" -> 10000000000000, "trader1" -> 10000000000000, "treasury" -> 10000000000000),
      metas: Set("legacyop"),
      texts: Map(),
      mint: { auth: "none", decimals: 0, freeze: "none", mutable: 0, pointer: "none", pointsTo: "none", exts: Set(), program: "none", supply: 0, updateAuth: "none" },
      ops: Map(),
      pool: { act: 0, baseMint: "none", baseRes: 0, baseVault: "none", cfg: "none", creB: 0, creQ: 0, creSurp: 0, creationBits: 0, creator: "none", finish: 0, hasSwap: 0, kind: 0, leftover: 0, legacyBits: 0, lmfBps: 0, migFeeBits: 0, migProtB: 0, migProtQ: 0, migrated: 0, partB: 0, partQ: 0, partSurp: 0, price: 0, protB: 0, protQ: 0, protSurp: 0, quoteRes: 0, quoteVault: "none", stage: 0, totProtB: 0, totProtQ: 0, totTradB: 0, totTradQ: 0, vol: { acc: 0, last: 0, refp: 0, vref: 0 } },
      quoteKind: quoteKind,
      slot: slot,
      t22: t22,
      tok: Map("admin0.b" -> 0, "admin0.lp" -> 0, "admin0.q" -> 0, "admin1.b" -> 0, "admin1.lp" -> 0, "admin1.q" -> 0, "authority.lp" -> 0, "cranker.b" -> 0, "cranker.lp" -> 0, "cranker.q" -> 0, "creator.b" -> 0, "creator.lp" -> 0, "creator.q" -> 0, "esc:creator.lp" -> 0, "esc:eve.lp" -> 0, "esc:heir.lp" -> 0, "esc:partner.lp" -> 0, "eve.b" -> 0, "eve.lp" -> 0, "eve.q" -> 2999999998997000000, "heir.b" -> 0, "heir.lp" -> 0, "heir.q" -> 0, "leftover.b" -> 0, "leftover.lp" -> 0, "leftover.q" -> 0, "leftover2.b" -> 0, "leftover2.q" -> 0, "locker.b" -> 0, "op0.b" -> 0, "op0.lp" -> 0, "op0.q" -> 0, "op1.b" -> 0, "op1.lp" -> 0, "op1.q" -> 0, "partner.b" -> 0, "partner.lp" -> 0, "partner.q" -> 0, "referrer.b" -> 0, "referrer.lp" -> 0, "referrer.q" -> 0, "trader0.b" -> 0, "trader0.lp" -> 0, "trader0.q" -> 6000000000000000000, "trader1.b" -> 0, "trader1.lp" -> 0, "trader1.q" -> 5000000000000000000, "treasury.b" -> 0, "treasury.lp" -> 0, "treasury.q" -> 0, "treasury2.b" -> 0, "treasury2.q" -> 0, "tvault.q" -> 1003000000, "v1.b" -> 0, "v1.q" -> 0, "v2.b" -> 0, "v2.q" -> 0, "vault.b" -> 0, "vault.q" -> 0),
      ts: ts,
      v1: { cClaimed: 0, cLocked: 0, cLockedDone: 0, cLp: 0, lpMint: "none", on: false, pClaimed: 0, pLocked: 0, pLockedDone: 0, pLp: 0, partner: "none", pool: "none" },
      v2: { a: 0, b: 0, liq: 0, on: false, pos1: { liq: 0, owner: "none", perm: 0, vest: 0 }, pos2: { liq: 0, owner: "none", perm: 0, vest: 0 }, price: 0 } }

  // what has happened: paid out by category, accrued by category, given away by anyone, how often each single payment was
  // made, who has been creator, what observers of the events know
  type Past = {
    paidB: str -> int, paidQ: str -> int, gifts: str -> int, times: str -> int, creators: Set[str], over: int,
    seen: str -> int,              // totals of what the events reported
    granted: Set[str],             // operators that were ever given a permission
    frozen: { rQ: int, rB: int, price: int, finish: int },   // at completion
    bad: Set[(str, str)]           // verdicts of the properties on the specification's own steps
  }
  pure val noPast: Past = { paidB: Map(), paidQ: Map(), gifts: Map(), times: Map(), creators: Set(), over: 0, seen: Map(), granted: Set(),
    frozen: { rQ: 0, rB: 0, price: 0, finish: 0 }, bad: Set() }
  pure def more(m: str -> int, k: str, n: int): str -> int = m.put(k, getOr(m, k) + n)

  pure def outB(a: World, b: World): int = getOr(a.tok, "vault.b") - getOr(b.tok, "vault.b")
  pure def outQ(a: World, b: World): int = getOr(a.tok, "vault.q") - getOr(b.tok, "vault.q")
  pure def pay(p: Past, who: str, a: World, b: World): Past =
    { ...p, paidB: more(p.paidB, who, outB(a, b)), paidQ: more(p.paidQ, who, outQ(a, b)) }
  pure def surplusOf(side: str): str = if (side == "partner") "partner surplus" else "creator surplus"
  pure def once(p: Past, what: str): Past = { ...p, times: more(p.times, what, 1) }
  pure def share(p: Past, b: World): Past = { ...p, paidB: more(p.paidB, "share", b.pool.migProtB), paidQ: more(p.paidQ, "share", b.pool.migProtQ) }
  pure def seenIn(p: Past, ev: List[Obs]): Past = ev.foldl(p, (q, o) => {
    pure val n = o.n
    if (o.name == "swap2") { ...q, seen: more(more(more(more(q.seen, "incl", getOr(n, "incl")), "trade", getOr(n, "trade")), "prot", getOr(n, "prot")), "ref", getOr(n, "ref")) }
    else if (o.name == "swap") { ...q, seen: more(q.seen, "swaps", 1) }
    else q
  })
  pure def note(p: Past, a: World, x: Ix, e: Exp): Past = {
    pure val b = e.w
    pure val q = seenIn(p, e.ev)
    pure val r = match (x.act) {
      | InitPool(y) => { ...q, creators: Set(y.creator) }
      | ClaimTrade(y) => pay(q, y.side, a, b)
      | ClaimProtocol(_) => pay(q, "protocol", a, b)
      | Zap(_) => pay(q, "protocol", a, b)
      | Surplus(y) => once(pay(q, surplusOf(y.side), a, b), surplusOf(y.side))
      | WithdrawMigFee(y) => if (y.flag == 0) once(pay(q, "partner fee", a, b), "partner fee") else once(pay(q, "creator fee", a, b), "creator fee")
      | ClaimCreationFee(y) => { ...q, times: more(q.times, if (y.side == "partner") "creation partner" else "creation protocol", if (getOr(a.lam, "pool") != getOr(b.lam, "pool")) 1 else 0) }
      | CreateLocker(_) => once(pay(q, "locker", a, b), "locker")
      | V1Migrate(_) => once(share(pay(q, "venue", a, b), b), "migration")
      | V2Migrate(_) => once(share(pay(q, "venue", a, b), b), "migration")
      | Leftover(_) => once(pay(q, "leftover", a, b), "leftover")
      | TransferCreator(y) => { ...q, creators: q.creators.union(Set(y.to)) }
      | CreateOperator(y) => { ...q, granted: q.granted.union(Set(y.who)) }
      | Donate(_) => { ...q, gifts: more(more(q.gifts, "b", -outB(a, b)), "q", -outQ(a, b)) }
      | Overshoot(_) => { ...q, over: q.over + b.pool.quoteRes - a.pool.quoteRes }
      | _ => q
    }
    // a referral paid into a vault is a gift to it
    pure val s = match (x.act) {
      | Swap(y) => {
          pure val ref = e.ev.foldl(0, (m, o) => if (o.name == "swap2") m + getOr(o.n, "ref") else m)
          if (y.referral == "vault.b") { ...r, gifts: more(r.gifts, "b", ref) } else if (y.referral == "vault.q") { ...r, gifts: more(r.gifts, "q", ref) } else r }
      // so is a claim whose receiver is a vault
      | ClaimTrade(y) => {
          pure val gb = if (y.baseTo == "vault.b") a.pool.partB + a.pool.creB - b.pool.partB - b.pool.creB else 0
          pure val gq = if (y.quoteTo == "vault.q") a.pool.partQ + a.pool.creQ - b.pool.partQ - b.pool.creQ else 0
          { ...r, gifts: more(more(r.gifts, "b", gb), "q", gq), paidB: more(r.paidB, y.side, gb), paidQ: more(r.paidQ, y.side, gq) } }
      | Surplus(y) => if (y.to != "vault.q") r else {
          pure val g = if (y.side == "partner") partnerSurplus(a) else creatorSurplus(a)
          { ...r, gifts: more(r.gifts, "q", g), paidQ: more(r.paidQ, surplusOf(y.side), g) } }
      | WithdrawMigFee(y) => if (y.to != "vault.q") r else {
          pure val g = if (y.flag == 0) partnerMigFee(a.cfg) else creatorMigFee(a.cfg)
          { ...r, gifts: more(r.gifts, "q", g), paidQ: more(r.paidQ, if (y.flag == 0) "partner fee" else "creator fee", g) } }
      | _ => r
    }
    if (a.hasPool and a.pool.stage == TRADING and b.pool.stage != TRADING)
      { ...s, frozen: { rQ: b.pool.quoteRes, rB: b.pool.baseRes, price: b.pool.price, finish: b.pool.finish } }
    else s
  }

  type All = { w: World, past: Past, ok: bool, prev: List[Ix] }
  pure val noQuote: Quote = { ok: false, incl: 0, excl: 0, left: 0, out: 0, price: 0, trade: 0, prot: 0, ref: 0 }
  pure def one(s: All, x: Ix): All =
    if (not(s.ok)) s
    else {
      pure val e = expected(s.w, x, s.prev)
      if (not(e.ok)) { ...s, ok: false }
      else {
        pure val t: Trans = { pre: s.w, ix: x, prev: s.prev, res: { ok: true, err: "", events: e.ev, calls: e.calls, touched: Set() }, post: e.w,
          quote: { has: false, later: noQuote, first: noQuote }, wire: SILENT }
        pure val v = judgeAll(t).foldl(Set(), (a, y) => a.union(y._2.bad.map(z => (y._1, z))))
        pure val q = note(s.past, s.w, x, e)
        { w: e.w, past: { ...q, bad: q.bad.union(v) }, ok: true, prev: s.prev.append(x) }
      }
    }
  // a transaction happens as a whole or not at all
  pure def transact(w: World, p: Past, l: List[Ix]): All = {
    pure val s = l.foldl({ w: w, past: p, ok: true, prev: [] }, (a, x) => one(a, x))
    if (s.ok) s else { w: w, past: p, ok: false, prev: [] }
  }

  var w: World
  var past: Past
  var mode: str
  var at: int
  var txs: List[Ix]

  action init = {
    nondet slot = 1.to(1000000).oneOf()
    nondet ts = 1700000000.to(1900000000).oneOf()
    nondet t22 = Set(true, false).oneOf()
    nondet kind = 0.to(4).oneOf()
    nondet what = Set("C01", "C02", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C21", "C22", "C23", "C25", "C26").oneOf()
    all {
      w' = empty(slot, ts, t22 and what != "C22", if (what == "C22") kind % 2 else kind),
      past' = noPast, mode' = what, at' = 0, txs' = []
    }
  }
  action advance_ = {
    nondet s = 0.to(1000000000000).oneOf()
    val l = nextTx(profile(mode), w, s, at, 60)
    val r = transact(w, past, l)
    all { w' = r.w, past' = r.past, mode' = mode, at' = at + 1, txs' = l }
  }

  // ---- what is true of every history
  val p = w.pool
  val c = w.cfg
  val gone = p.stage == MIGRATED
  def gotB(k: str): int = getOr(past.paidB, k)
  def gotQ(k: str): int = getOr(past.paidQ, k)
  def sumTok(l: Set[str]): int = l.fold(0, (a, k) => a + getOr(w.tok, k))
  def due(cond: bool, x: int): int = if (cond) x else 0

  // the properties hold of the specification's own steps
  val judged = past.bad == Set()
  pure val QUOTE = 3000000000000000000 - 1003000000 + 6000000000000000000 + 5000000000000000000 + 1003000000
  // no token appears or disappears
  val conserved = and {
    sumTok(baseAccounts.union(Set("locker.b", "v1.b", "v2.b"))) == w.mint.supply,
    sumTok(quoteAccounts.union(Set("v1.q", "v2.q"))) == QUOTE
  }
  // every fee that was ever charged is either still owed or was paid, once, to whom it belongs
  val feesAddUp = w.hasPool implies and {
    gotB("partner") + p.partB + gotB("creator") + p.creB == p.totTradB,
    gotQ("partner") + p.partQ + gotQ("creator") + p.creQ == p.totTradQ,
    gotB("protocol") + p.protB + p.migProtB == p.totProtB + gotB("share"),
    gotQ("protocol") + p.protQ + p.migProtQ == p.totProtQ + gotQ("share") + due(p.protSurp == 1, protocolSurplus(w)),
    getOr(past.seen, "trade") == p.totTradB + p.totTradQ,
    getOr(past.seen, "prot") == p.totProtB + p.totProtQ
  }
  // nothing is stranded and nothing is missing: what is in a vault is what is owed from it, and what people gave it
  val exactBooks = w.hasPool implies {
    val b = books(w)
    and {
      not(gone) implies b.vQ == led::oweQ(b) + getOr(past.gifts, "q"),
      p.stage == TRADING implies b.vB == led::oweB(b) + getOr(past.gifts, "b"),
      b.vB >= led::oweB(b), b.vQ >= led::oweQ(b)
    }
  }
  // single payments are made once
  val single = past.times.keys().forall(k => past.times.get(k) <= 1)
  val singleAmounts = w.hasPool implies and {
    gotQ("partner surplus") == due(p.partSurp == 1, partnerSurplus(w)),
    gotQ("creator surplus") == due(p.creSurp == 1, creatorSurplus(w)),
    gotQ("partner fee") == due(bit(p.migFeeBits, BIT_PARTNER), partnerMigFee(c)),
    gotQ("creator fee") == due(bit(p.migFeeBits, BIT_CREATOR), creatorMigFee(c)),
    gotB("locker") == due(getOr(past.times, "locker") == 1, vestTotal(c.lv)),
    getOr(w.lam, "pool") >= c.creationFee - due(bit(p.creationBits, 1), creationProtocol(c)) - due(bit(p.creationBits, 2), c.creationFee - creationProtocol(c))
  }
  // no sequence of trades takes more out of the curve than it allows: reserves cover the exact curve at the present price
  val covered = w.hasPool implies {
    val ex = exact(c.curve, c.start, c.start, p.price)
    and {
      p.price >= c.start, p.price <= c.migPrice,
      geF(p.quoteRes, ex.q),
      not(gone) implies leF(supplyOf(c) - p.baseRes, ex.b)
    }
  }
  // once complete, reserves, price and completion time stay what they were
  val frozen = (w.hasPool and p.stage != TRADING) implies and {
    p.quoteRes == past.frozen.rQ + past.over, p.baseRes == past.frozen.rB, p.price == past.frozen.price, p.finish == past.frozen.finish,
    p.finish <= w.ts, past.frozen.rQ >= c.migQuote
  }
  val stages = w.hasPool implies and {
    p.stage == TRADING iff p.quoteRes < c.migQuote,
    gone iff p.migrated == 1,
    (getOr(past.times, "migration") == 1) iff gone,
    (vestTotal(c.lv) > 0 and p.stage >= READY) iff getOr(past.times, "locker") == 1,
    past.creators.contains(p.creator), w.ops.keys().subseteq(past.granted)
  }
  // nobody can be kept from going on: completion leads to migration, and what is owed can be claimed by its owner
  val live = w.hasPool implies and {
    p.stage == POST implies expected(w, plainIx(CreateLocker({ by: "cranker", evil: 0 })), []).ok,
    // the base kept aside and the quote of the threshold are there to be deposited
    p.stage == READY implies (if (c.migOpt == 1) expected(w, plainIx(V2Migrate({ by: "cranker", evil: 0, second: true, venue: { auth: "authority", feeNum: feeOptions[min(c.migFeeOpt, 5)] * (DEN / BPS), mode: 0, n: 0, freq: 0, red: 0, min: MIN_SQRT, max: MAX_SQRT, vaultCfg: "none", act: 1 } })), []).ok
      else stake(c, p, getOr(w.tok, "vault.b")).ok),
    expected(w, plainIx(ClaimTrade({ side: "partner", a: U64, b: U64, by: c.partner, baseTo: "partner.b", quoteTo: "partner.q" })), []).ok,
    c.creatorPct > 0 implies expected(w, plainIx(ClaimTrade({ side: "creator", a: U64, b: U64, by: p.creator, baseTo: "creator.b", quoteTo: "creator.q" })), []).ok
  }
  val inv = judged and conserved and feesAddUp and exactBooks and single and singleAmounts and covered and frozen and stages and live
  // witnesses: how much of the behaviour the runs get to
  val sawPool = w.hasPool
  val sawEnd = w.hasPool and p.stage != TRADING
  val sawMigration = gone
  val sawLeftover = p.leftover == 1
  val sawFees = gotQ("partner") > 0 and gotQ("creator") > 0 and gotQ("protocol") > 0
}
