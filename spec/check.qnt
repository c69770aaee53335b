// What each property's check explores: the histories it asks for, and the judgement on each executed instruction.
module check {
  import num.* from "./num"
  import types.* from "./types"
  import step.* from "./step"
  import rnd.* from "./rnd"
  import genp.* from "./genp"
  import gen.* from "./gen"
  import props.* from "./props"

  pure val mixed: Prof = { fee: -1, dyn: 40, first: 35, venue: -1, collect: -1, fixed: 40, lock: 40, bad: 6, focus: Set(), attack: 4, pace: 2, multi: 10, stop: 0, end: -1, sys: -1 }
  // mixed: everything, but swaps only
  pure val trading: Prof = { ...mixed, attack: 2, pace: 1, bad: 2, focus: Set("Swap"), stop: 35 }
  pure val ending: Prof = { ...mixed, pace: 12, bad: 2, attack: 3 }

  pure def profile(prop: str): Prof =
    if (Set("C02", "C03", "C04", "C05", "C06", "C07", "C27").contains(prop)) trading
    else if (prop == "C01") { ...mixed, pace: 8, bad: 2, focus: Set("ClaimTrade", "ClaimProtocol", "Zap", "Surplus", "WithdrawMigFee", "Leftover", "V1Migrate", "V2Migrate", "CreateLocker", "Overshoot") }
    else if (prop == "C08") { ...trading, fee: 1, dyn: 25, focus: Set("Swap", "Warp") }
    else if (prop == "C09") { ...trading, fee: 2, dyn: 20, multi: 50, focus: Set("Swap", "Warp") }
    else if (prop == "C10") { ...trading, dyn: 100, focus: Set("Swap", "Warp") }
    else if (prop == "C11") { ...trading, first: 92, multi: 40, pace: 0 }
    else if (prop == "C12") { ...mixed, pace: 20, bad: 2, focus: Set("Swap", "Surplus", "WithdrawMigFee"), multi: 20 }
    else if (prop == "C13") { ...ending, focus: Set("CreateLocker", "V1Migrate", "V2Migrate", "V1Meta", "Swap", "TransferCreator"), lock: 60 }
    else if (prop == "C14") { ...mixed, focus: Set("ClaimTrade", "Swap"), attack: 8 }
    else if (prop == "C15") { ...ending, pace: 25, focus: Set("Surplus", "Overshoot", "ClaimProtocol", "Zap", "CreateOperator"), attack: 6 }
    else if (prop == "C16") { ...ending, pace: 25, focus: Set("WithdrawMigFee"), attack: 6 }
    else if (prop == "C17") { ...ending, pace: 8, focus: Set("ClaimProtocol", "Zap", "CreateOperator"), attack: 12 }
    else if (prop == "C18") { ...mixed, focus: Set("ClaimCreationFee", "CreateOperator", "Inherit"), attack: 12 }
    else if (prop == "C19") { ...ending, attack: 75 }
    else if (prop == "C20") { ...mixed, fixed: 50, first: 30, attack: 8 }
    else if (prop == "C21") { ...ending, pace: 30, fixed: 75, focus: Set("Leftover", "V1Migrate", "V2Migrate", "CreateLocker") }
    else if (prop == "C22") { ...ending, pace: 30, venue: 0, focus: Set("V1Meta", "V1Migrate", "V1LockLp", "V1ClaimLp", "CreateLocker"), attack: 8 }
    else if (prop == "C23") { ...ending, pace: 30, venue: 1, focus: Set("V2Migrate", "CreateLocker"), attack: 6 }
    else if (prop == "C24") { ...mixed, bad: 75, attack: 0, stop: 100, focus: Set("InitPool", "CreateConfig") }
    else if (prop == "C25") { ...ending, pace: 30, lock: 95, focus: Set("CreateLocker"), attack: 10 }
    else if (prop == "C26") { ...ending, focus: Set("TransferCreator", "V1LockLp", "V1ClaimLp", "V1Meta", "V1Migrate", "ClaimTrade", "Surplus", "WithdrawMigFee"), attack: 8 }
    else if (prop == "C28") ending
    else if (prop == "C29") { ...ending, focus: Set("CreateOperator", "CloseOperator", "CloseLegacy", "ClaimProtocol", "Zap", "ClaimCreationFee"), attack: 15 }
    else if (prop == "C30") { ...mixed, first: 20, focus: Set("PartnerMeta", "PoolMeta", "TransferCreator", "CloseLegacy"), attack: 10, pace: 12 }
    else if (prop == "C31") { ...mixed, pace: 16, bad: 8, attack: 3, multi: 4, lock: 60, focus: Set("PartnerMeta", "PoolMeta", "CreateOperator", "CloseOperator", "CloseLegacy", "Inherit",
      "V1Meta", "V1Migrate", "V1LockLp", "V1ClaimLp", "V2Meta", "V2Migrate", "CreateLocker", "Leftover", "Surplus", "WithdrawMigFee", "ClaimCreationFee", "Zap", "TransferCreator") }
    else if (prop == "C33") { ...mixed, attack: 40, multi: 20, pace: 10, focus: Set("ClaimTrade", "ClaimProtocol", "Surplus", "Overshoot", "CreateOperator", "CreateLocker", "WithdrawMigFee", "ClaimCreationFee", "V1LockLp", "V1ClaimLp", "Leftover", "TransferCreator") }
    else if (prop == "C32") { ...mixed, attack: 0, bad: 2, pace: 5, end: 0 }
    else mixed

  type Setting = { t22: bool, quoteKind: int, slot: int, ts: int, n: int, prof: Prof }
  // how long a property's histories are
  pure def steps(prop: str): int =
    if (prop == "C24") 18 else if (prop == "C20") 25 else if (prop == "C11") 10 else if (prop == "C30") 20
    else if (Set("C21", "C22", "C23", "C25", "C31", "C32").contains(prop)) 45
    else if (Set("C15", "C16", "C26", "C13", "C19", "C33").contains(prop)) 60 else 80
  pure def setting(prop: str, s: int): Setting = {
    pure val pf = profile(prop)
    pure val k = wpick(s, 1, if (prop == "C17") [35, 35, 15, 3, 12] else if (prop == "C24") [50, 12, 22, 1, 15] else [70, 10, 10, 2, 8])
    pure val v1 = pf.venue == 0
    {
      // only SPL launches migrate to v1
      t22: not(v1) and chance(s, 2, 30), quoteKind: if (v1 and k >= 2) k % 2 else k,
      slot: between(s, 3, 1, 1000000), ts: between(s, 4, 1700000000, 1900000000), n: steps(prop),
      // some histories of the properties about transactions go through the arrangements of instructions in order
      prof: if ((prop == "C09" or prop == "C11") and s % 3 == 0) { ...pf, sys: s % 1000003 / 3 * (if (prop == "C09") steps(prop) else 1) }
        else if (prop == "C33") { ...mixed, attack: 40, multi: 20, pace: 10, focus: Set("ClaimTrade", "ClaimProtocol", "Surplus", "Overshoot", "CreateOperator", "CreateLocker", "WithdrawMigFee", "ClaimCreationFee", "V1LockLp", "V1ClaimLp", "Leftover", "TransferCreator") }
    else if (prop == "C32") { ...pf, end: wpick(s, 5, [0, 0, 15, 10, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 3, 3, 3, 3, 3]) } else pf
    }
  }
  pure def nextTx(pf: Prof, w: World, s: int, k: int, n: int): List[Ix] = {
    pure val l = gen(pf, w, h(s, 100 + k), k, n)
    // launches that are to be brought to their end get no donations
    if (pf.end >= 0 and l.indices().exists(i => gives(l[i].act))) [plainIx(Warp({ slots: 1, secs: 1 }))] else l
  }
}
