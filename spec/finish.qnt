// How a launch is brought to its end: what remains to be done in a world, whose part it is, and what must be left when all of
// it is done. Stated without the step function, so that a state in which the specified refusals themselves leave no way on
// would be found as well.
module finish {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import config.* from "./config"
  import swap.* from "./swap"
  import migrate.* from "./migrate"
  import step.* from "./step"

  pure val venueV1: Venue1 = { auth: "authority", num: 0, den: 1, dur: 0, partnerFee: 0, vaultCfg: "none" }
  pure def v1For(c: Cfg, den: int): Venue1 = { ...venueV1, num: feeOptions[min(c.migFeeOpt, 5)] * den / 10000, den: den }
  pure def v2For(c: Cfg, mode: int): Venue2 = { auth: "authority", feeNum: feeOptions[min(c.migFeeOpt, 5)] * (DEN / BPS), mode: mode, n: 0, freq: 0, red: 0,
    min: MIN_SQRT, max: MAX_SQRT, vaultCfg: "none", act: 1 }

  pure def claimant(w: World): List[str] = ["op0", "op1", "trader0"].select(o => may(w, o, PERM_CLAIM))
  // a purchase that completes the curve whatever the fee
  pure def plenty(w: World): int = 100 * (w.cfg.migQuote - w.pool.quoteRes) + 1000
  pure def buyRest(w: World, who: str): Act =
    Swap({ dir: BUY, mode: PARTIAL, a0: min(w.tok.getOr(quoteOf.getOrS(who)), plenty(w)), a1: 0, who: who, referral: "none", legacy: false })

  // what takes the launch on to its next stage
  pure def onwards(w: World): List[Act] =
    if (w.pool.stage == TRADING) {
      if (limited(w, BUY)) { pure val d = w.pool.act + w.cfg.base.f2 + 1 - now(w) [Warp({ slots: d, secs: d })] }
      else if (w.tok.getOr("trader1.q") == 0) []
      else [buyRest(w, "trader1")]
    }
    else if (w.pool.stage == POST) [CreateLocker({ by: "cranker", evil: 0 })]
    else if (w.pool.stage == READY) {
      if (w.cfg.migOpt == 1) [V2Migrate({ by: "cranker", evil: 0, second: true, venue: v2For(w.cfg, 0) })]
      else if (not(w.v1.on)) [V1Meta({ by: "cranker" })]
      else [V1Migrate({ by: "cranker", lp: 0, evil: 0, venue: v1For(w.cfg, 10000) })]
    }
    else []

  // what somebody is still owed
  pure def entitlements(w: World): List[Act] = {
    pure val c = w.cfg
    pure val p = w.pool
    pure val m = w.v1
    pure val over = complete(w)
    pure val after = p.stage == MIGRATED
    pure val pq = quoteOf.getOrS(c.partner)
    pure val cq = quoteOf.getOrS(p.creator)
    pure val protocol = p.protB + p.protQ + p.migProtB + p.migProtQ > 0 or (over and p.protSurp == 0)
    pure val fee = c.creationFee > 0 and not(bit(p.creationBits, 1)) or (bit(p.legacyBits, 1) and not(bit(p.legacyBits, 2)))
    pure val ops = claimant(w)
    pure val op = if (ops == []) "none" else ops[0]
    pure val free = ["op0", "op1", "trader0"].select(o => not(w.ops.keys().contains(o)))
    [
      { on: p.partB + p.partQ > 0, act: ClaimTrade({ side: "partner", a: U64, b: U64, by: c.partner, baseTo: baseOf.getOrS(c.partner), quoteTo: pq }) },
      { on: p.creB + p.creQ > 0, act: ClaimTrade({ side: "creator", a: U64, b: U64, by: p.creator, baseTo: baseOf.getOrS(p.creator), quoteTo: cq }) },
      { on: over and p.partSurp == 0, act: Surplus({ side: "partner", by: c.partner, to: pq }) },
      { on: over and p.creSurp == 0, act: Surplus({ side: "creator", by: p.creator, to: cq }) },
      { on: over and not(bit(p.migFeeBits, BIT_PARTNER)), act: WithdrawMigFee({ flag: 0, by: c.partner, to: pq }) },
      { on: over and not(bit(p.migFeeBits, BIT_CREATOR)), act: WithdrawMigFee({ flag: 1, by: p.creator, to: cq }) },
      { on: c.creationFee > 0 and not(bit(p.creationBits, 2)), act: ClaimCreationFee({ side: "partner", by: c.partner, to: c.partner }) },
      { on: (fee or protocol) and op == "none" and free == [], act: CloseOperator({ who: "op0", by: "admin0" }) },
      { on: (fee or protocol) and op == "none" and free != [], act: CreateOperator({ who: if (free == []) "op0" else free[0], perm: 3, by: "admin0" }) },
      { on: fee and op != "none", act: ClaimCreationFee({ side: "protocol", by: op, to: "treasury" }) },
      { on: protocol and op != "none", act: ClaimProtocol({ a: U64, b: U64, by: op }) },
      { on: after and c.fixedSupply == 1 and p.leftover == 0, act: Leftover({ by: "cranker" }) },
      { on: after and c.migOpt == 0 and m.pLocked > 0 and m.pLockedDone == 0, act: V1LockLp({ owner: m.partner, by: "cranker", evil: 0 }) },
      { on: after and c.migOpt == 0 and m.cLocked > 0 and m.cLockedDone == 0, act: V1LockLp({ owner: p.creator, by: "cranker", evil: 0 }) },
      { on: after and c.migOpt == 0 and m.pLp > 0 and m.pClaimed == 0, act: V1ClaimLp({ owner: m.partner, by: "cranker" }) },
      { on: after and c.migOpt == 0 and m.cLp > 0 and m.cClaimed == 0, act: V1ClaimLp({ owner: p.creator, by: "cranker" }) }
    ].select(x => x.on).foldl([], (l, x) => l.append(x.act))
  }
  pure def remaining(w: World): List[Act] = if (not(w.hasPool)) [] else onwards(w).concat(entitlements(w))

  // an instruction that the launch cannot do without, put rightly, is never refused
  pure def due(w: World, ix: Ix): bool =
    w.hasPool and ix.sub == [] and ix.via == 0 and not(ix.join) and {
      pure val l = remaining(w)
      match ix.act {
        | Swap(x) => and {
            not(complete(w)), x.dir == BUY, x.mode == PARTIAL, not(x.legacy), x.a1 == 0, not(limited(w, BUY)),
            x.a0 >= plenty(w), x.a0 <= w.tok.getOr(quoteOf.getOrS(x.who)), x.a0 <= U64, x.referral == "none",
            w.cfg.firstMin == 1 and w.pool.hasSwap == 0 implies ix.sv == "real" }
        | V1Migrate(x) => l.indices().exists(i => match l[i] { | V1Migrate(y) => { ...x, by: y.by, lp: y.lp, venue: y.venue } == y and x.venue == v1For(w.cfg, x.venue.den) and x.venue.den >= 10000 | _ => false })
        | V2Migrate(x) => l.indices().exists(i => match l[i] { | V2Migrate(y) => { ...x, by: y.by, venue: y.venue } == y and x.venue == v2For(w.cfg, x.venue.mode) and x.venue.mode <= 1 | _ => false })
        | CreateLocker(x) => l.indices().exists(i => match l[i] { | CreateLocker(y) => x.evil == 0 | _ => false })
        | V1Meta(_) => l.indices().exists(i => match l[i] { | V1Meta(_) => true | _ => false })
        | _ => l.indices().exists(i => l[i] == ix.act)
      }
    }

  // everything has been done
  pure def ended(w: World): bool = w.hasPool and w.pool.stage == MIGRATED and entitlements(w) == []
  // and then nothing is left where nobody can reach it, but for the quote tokens that matched no whole base token in the deposit
  // (histories without donations)
  pure def abandoned(w: World): Set[str] = {
    pure val unit = if (w.cfg.migOpt == 1 and w.v2.a > 0) w.v2.b / w.v2.a + 1 else 0
    Set(
      (w.tok.getOr("vault.b") == 0, "base tokens are left in the vault"),
      (w.tok.getOr("vault.q") <= 4 * unit, "quote tokens are left in the vault"),
      (w.lam.getOr("pool") == 0, "lamports are left in the pool"),
      (w.tok.getOr("authority.lp") == 0, "LP tokens are left with the authority")
    ).filter(x => not(x._1)).map(x => x._2)
  }
}
