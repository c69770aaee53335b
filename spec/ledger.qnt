// The money of one pool with everything but sums and obligations left out, over unbounded integers: what any instruction
// may do to the vaults and to what is owed from them (anyone may send tokens to a vault: it may always hold more). Apalache proves `inv` inductive for every amount and every
// configuration (machine `books` below); the checks hold every observed step of the program to `allowed`.
module ledger {
  type L = {
    stage: int, vB: int, vQ: int, rB: int, rQ: int,
    // threshold = quote for the venue + migration fee of partner and creator; base set aside; locked vesting
    thr: int, migQ: int, mfP: int, mfC: int, need: int, lv: int,
    protB: int, protQ: int, partB: int, partQ: int, creB: int, creQ: int,
    mB: int, mQ: int,                  // the protocol's share of the migration
    sP: int, sC: int, sR: int,         // surplus shares (after completion)
    paidP: bool, paidC: bool, paidR: bool, paidMP: bool, paidMC: bool
  }
  pure def feesB(s: L): int = s.protB + s.partB + s.creB
  pure def feesQ(s: L): int = s.protQ + s.partQ + s.creQ
  pure def due(paid: bool, x: int): int = if (paid) 0 else x
  pure def oweB(s: L): int = feesB(s) + s.mB + (if (s.stage == 0) s.rB else if (s.stage == 1) s.lv + s.need else if (s.stage == 2) s.need else 0)
  pure def oweQ(s: L): int = feesQ(s) + s.mQ + (if (s.stage == 0) s.rQ else
    due(s.paidP, s.sP) + due(s.paidC, s.sC) + due(s.paidR, s.sR) + due(s.paidMP, s.mfP) + due(s.paidMC, s.mfC) + (if (s.stage == 3) 0 else s.migQ))

  pure def inv(s: L): bool = and {
    s.stage >= 0, s.stage <= 3,
    s.vB >= oweB(s), s.vQ >= oweQ(s),
    s.rB >= 0, s.rQ >= 0, s.migQ >= 0, s.mfP >= 0, s.mfC >= 0, s.need >= 0, s.lv >= 0,
    s.thr == s.migQ + s.mfP + s.mfC, s.thr > 0,
    s.protB >= 0, s.protQ >= 0, s.partB >= 0, s.partQ >= 0, s.creB >= 0, s.creQ >= 0, s.mB >= 0, s.mQ >= 0,
    s.sP >= 0, s.sC >= 0, s.sR >= 0,
    // complete exactly when the threshold is reached, and surplus is what is above it
    s.stage == 0 iff s.rQ < s.thr,
    s.stage != 0 implies s.sP + s.sC + s.sR == s.rQ - s.thr,
    s.stage == 0 implies not(s.paidP or s.paidC or s.paidR or s.paidMP or s.paidMC) and s.mB == 0 and s.mQ == 0,
    s.stage == 1 implies s.lv > 0,
    s.stage < 3 implies s.mB == 0 and s.mQ == 0
  }

  // a new pool: all of the supply is its reserve
  pure def fresh(t: L): bool = and {
    t.stage == 0, t.rQ == 0, t.rB >= 0, t.vB >= t.rB, t.vQ >= 0, t.thr > 0, t.thr == t.migQ + t.mfP + t.mfC,
    t.migQ >= 0, t.mfP >= 0, t.mfC >= 0, t.need >= 0, t.lv >= 0, feesB(t) == 0, feesQ(t) == 0, t.mB == 0, t.mQ == 0,
    t.protB == 0, t.protQ == 0, t.partB == 0, t.partQ == 0,
    t.sP == 0, t.sC == 0, t.sR == 0, not(t.paidP), not(t.paidC), not(t.paidR), not(t.paidMP), not(t.paidMC)
  }

  pure def trade(s: L, t: L): bool = and {
    s.stage == 0, s.rQ < s.thr,
    t.protB >= s.protB, t.protQ >= s.protQ, t.partB >= s.partB, t.partQ >= s.partQ, t.creB >= s.creB, t.creQ >= s.creQ,
    t.rB >= 0, t.rQ >= 0,
    // what enters the vaults is what the books say
    t.vB - s.vB >= t.rB - s.rB + feesB(t) - feesB(s), t.vQ - s.vQ >= t.rQ - s.rQ + feesQ(t) - feesQ(s),
    if (t.rQ < t.thr) t.stage == 0 and t.sP == 0 and t.sC == 0 and t.sR == 0
    else and {
      t.stage == (if (s.lv > 0) 1 else 2),
      t.vB >= feesB(t) + s.need + s.lv,
      t.sP >= 0, t.sC >= 0, t.sR >= 0, t.sP + t.sC + t.sR == t.rQ - t.thr
    },
    t == { ...s, stage: t.stage, vB: t.vB, vQ: t.vQ, rB: t.rB, rQ: t.rQ, protB: t.protB, protQ: t.protQ, partB: t.partB, partQ: t.partQ,
           creB: t.creB, creQ: t.creQ, sP: t.sP, sC: t.sC, sR: t.sR }
  }
  pure def claimTrade(s: L, t: L): bool =
    or { and { 0 <= t.partB, t.partB <= s.partB, 0 <= t.partQ, t.partQ <= s.partQ,
               t.vB >= s.vB - (s.partB - t.partB), t.vQ >= s.vQ - (s.partQ - t.partQ), t == { ...s, partB: t.partB, partQ: t.partQ, vB: t.vB, vQ: t.vQ } },
         and { 0 <= t.creB, t.creB <= s.creB, 0 <= t.creQ, t.creQ <= s.creQ,
               t.vB >= s.vB - (s.creB - t.creB), t.vQ >= s.vQ - (s.creQ - t.creQ), t == { ...s, creB: t.creB, creQ: t.creQ, vB: t.vB, vQ: t.vQ } } }
  pure def claimProtocol(s: L, t: L): bool = {
    // once complete, the protocol's surplus goes along with the first quote claim
    pure val sur = if (s.stage != 0 and not(s.paidR) and t.paidR) s.sR else 0
    and {
      0 <= t.protB, t.protB <= s.protB, 0 <= t.protQ, t.protQ <= s.protQ, 0 <= t.mB, t.mB <= s.mB, 0 <= t.mQ, t.mQ <= s.mQ,
      t.paidR == s.paidR or (s.stage != 0 and t.paidR),
      t.vB >= s.vB - (s.protB - t.protB) - (s.mB - t.mB), t.vQ >= s.vQ - (s.protQ - t.protQ) - (s.mQ - t.mQ) - sur,
      t == { ...s, protB: t.protB, protQ: t.protQ, mB: t.mB, mQ: t.mQ, paidR: t.paidR, vB: t.vB, vQ: t.vQ }
    }
  }
  pure def once(s: L, t: L): bool = and { s.stage != 0,
    or { not(s.paidP) and t.vQ >= s.vQ - s.sP and t == { ...s, paidP: true, vQ: t.vQ },
         not(s.paidC) and t.vQ >= s.vQ - s.sC and t == { ...s, paidC: true, vQ: t.vQ },
         not(s.paidMP) and t.vQ >= s.vQ - s.mfP and t == { ...s, paidMP: true, vQ: t.vQ },
         not(s.paidMC) and t.vQ >= s.vQ - s.mfC and t == { ...s, paidMC: true, vQ: t.vQ } } }
  pure def lock(s: L, t: L): bool = and { s.stage == 1, t == { ...s, stage: 2, vB: s.vB - s.lv } }
  pure def migrate(s: L, t: L): bool = and {
    s.stage == 2, t.mB >= 0, t.mQ >= 0, t.vB <= s.vB,
    // fees and the protocol's share stay; no more quote leaves than was meant for the venue
    t.vB >= feesB(s) + t.mB, t.vQ <= s.vQ, s.vQ - t.vQ + t.mQ <= s.migQ,
    t == { ...s, stage: 3, vB: t.vB, vQ: t.vQ, mB: t.mB, mQ: t.mQ }
  }
  pure def leftover(s: L, t: L): bool = and { s.stage == 3, t.vB >= feesB(s) + s.mB, t == { ...s, vB: t.vB } }
  pure def gift(s: L, t: L): bool = t.vB >= s.vB and t.vQ >= s.vQ and t == { ...s, vB: t.vB, vQ: t.vQ }

  pure def allowed(s: L, t: L): bool =
    or { trade(s, t), claimTrade(s, t), claimProtocol(s, t), once(s, t), lock(s, t), migrate(s, t), leftover(s, t), gift(s, t) }
}

module books {
  import ledger.*
  var s: L
  var was: L          // the state before
  action any_(p: L => bool, from: L => L): bool = {
    nondet stage = Int.oneOf()
    nondet vB = Int.oneOf()
    nondet vQ = Int.oneOf()
    nondet rB = Int.oneOf()
    nondet rQ = Int.oneOf()
    nondet thr = Int.oneOf()
    nondet migQ = Int.oneOf()
    nondet mfP = Int.oneOf()
    nondet mfC = Int.oneOf()
    nondet need = Int.oneOf()
    nondet lv = Int.oneOf()
    nondet protB = Int.oneOf()
    nondet protQ = Int.oneOf()
    nondet partB = Int.oneOf()
    nondet partQ = Int.oneOf()
    nondet creB = Int.oneOf()
    nondet creQ = Int.oneOf()
    nondet mB = Int.oneOf()
    nondet mQ = Int.oneOf()
    nondet sP = Int.oneOf()
    nondet sC = Int.oneOf()
    nondet sR = Int.oneOf()
    nondet paidP = Bool.oneOf()
    nondet paidC = Bool.oneOf()
    nondet paidR = Bool.oneOf()
    nondet paidMP = Bool.oneOf()
    nondet paidMC = Bool.oneOf()
    val t = { stage: stage, vB: vB, vQ: vQ, rB: rB, rQ: rQ, thr: thr, migQ: migQ, mfP: mfP, mfC: mfC, need: need, lv: lv,
      protB: protB, protQ: protQ, partB: partB, partQ: partQ, creB: creB, creQ: creQ, mB: mB, mQ: mQ, sP: sP, sC: sC, sR: sR,
      paidP: paidP, paidC: paidC, paidR: paidR, paidMP: paidMP, paidMC: paidMC }
    all { p(t), s' = t, was' = from(t) }
  }
  action init = any_(t => fresh(t), t => t)
  action step = any_(t => allowed(s, t), t => s)
  // any state that satisfies the invariant, for the inductive step
  action start = any_(t => inv(t), t => t)
  // stages and payments only go forward, obligations that are fixed stay as they are, trading ends for good
  val forward = and {
    s.stage >= was.stage, was.stage == 0 implies s.stage < 3, was.stage == 1 implies s.stage <= 2,
    was.paidP implies s.paidP, was.paidC implies s.paidC, was.paidR implies s.paidR, was.paidMP implies s.paidMP, was.paidMC implies s.paidMC,
    was.stage > 0 implies s.rQ == was.rQ and s.rB == was.rB and s.sP == was.sP and s.sC == was.sC and s.sR == was.sR,
    was.stage > 0 implies s.partB <= was.partB and s.partQ <= was.partQ and s.creB <= was.creB and s.creQ <= was.creQ and s.protB <= was.protB and s.protQ <= was.protQ,
    // what leaves a vault is what is no longer owed from it
    was.stage != 2 implies was.vQ - s.vQ <= oweQ(was) - oweQ(s)
  }
  val good = inv(s) and forward
}
