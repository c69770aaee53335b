// The observable state of one launch (a configuration, its pool, the tokens and lamports around it) and the
// instructions that act on it. Parties and accounts are named, token amounts are raw units.
module types {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"

  // liquidity vesting of one side after a v2 migration
  type Vest = { on: bool, pct: int, bps: int, n: int, freq: int, cliff: int }
  // base-token vesting in the locker
  type LockVest = { per: int, cliffDur: int, freq: int, n: int, cliffAmt: int }
  // market-cap fee schedule handed to the migrated pool
  type MSched = { n: int, step: int, expiry: int, red: int }

  type Cfg = {
    id: str, quoteMint: str, partner: str, leftoverTo: str,
    base: Base, dyn: Dyn, pv: Vest, cv: Vest,
    collect: int, migOpt: int, actType: int, decimals: int, tokenType: int, quoteFlag: int,
    pPerm: int, pLiq: int, cPerm: int, cLiq: int,
    migFeeOpt: int, fixedSupply: int, creatorPct: int, tokAuth: int, migFeePct: int, creatorMigPct: int,
    swapBase: int, migQuote: int, migBase: int, migPrice: int,
    lv: LockVest, preSupply: int, postSupply: int,
    mCollect: int, mDyn: int, mFeeBps: int, mBaseMode: int, mComp: int, mSched: MSched,
    firstMin: int, creationFee: int, start: int, curve: List[Pt]
  }

  // what a caller passes to create a configuration
  type Params = {
    quote: str, partner: str, leftoverTo: str,
    base: Base, hasDyn: bool, dyn: Dyn, pv: Vest, cv: Vest,
    collect: int, migOpt: int, actType: int, decimals: int, tokenType: int,
    pPerm: int, pLiq: int, cPerm: int, cLiq: int,
    migFeeOpt: int, hasSupply: bool, preSupply: int, postSupply: int, creatorPct: int, tokAuth: int,
    migFeePct: int, creatorMigPct: int, migQuote: int, lv: LockVest,
    mCollect: int, mDyn: int, mFeeBps: int, mBaseMode: int, mComp: int, mSched: MSched,
    firstMin: bool, creationFee: int, start: int, curve: List[Pt]
  }

  type Pool = {
    cfg: str, creator: str, baseMint: str, baseVault: str, quoteVault: str,
    baseRes: int, quoteRes: int,
    protB: int, protQ: int, partB: int, partQ: int, creB: int, creQ: int,
    price: int, act: int, kind: int, migrated: int,
    partSurp: int, protSurp: int, creSurp: int,
    stage: int, leftover: int, migFeeBits: int,
    totProtB: int, totProtQ: int, totTradB: int, totTradQ: int,
    finish: int, creationBits: int, legacyBits: int, hasSwap: int,
    lmfBps: int, migProtB: int, migProtQ: int, vol: Vol
  }
  pure val TRADING = 0
  pure val POST = 1          // complete, waiting for the locker
  pure val READY = 2         // ready to migrate
  pure val MIGRATED = 3

  type Mint = { supply: int, auth: str, freeze: str, decimals: int, program: str, updateAuth: str, mutable: int,
    // the pointer to the text of a token of the newer program: who may move it, where it points, and the extensions of the mint
    pointer: str, pointsTo: str, exts: Set[str] }

  // DAMM v1 bookkeeping of the program
  type V1 = {
    on: bool, pool: str, partner: str, lpMint: str,
    pLocked: int, pLp: int, cLocked: int, cLp: int,
    pLockedDone: int, pClaimed: int, cLockedDone: int, cClaimed: int
  }
  // the migrated DAMM v2 pool and its two positions, as the venue holds them
  type Pos = { liq: int, perm: int, vest: int, owner: str }
  type V2 = { on: bool, price: int, liq: int, a: int, b: int, pos1: Pos, pos2: Pos }

  type World = {
    slot: int, ts: int, t22: bool, quoteKind: int,
    hasCfg: bool, cfg: Cfg, hasPool: bool, pool: Pool, mint: Mint, v1: V1, v2: V2,
    tok: str -> int,        // token accounts by name: "<owner>.b" / "<owner>.q" / "<owner>.lp"
    lam: str -> int,        // lamports (for the pool: above rent)
    ops: str -> int,        // operator permissions by address (absent: no operator account)
    metas: Set[str],        // other program accounts that exist
    texts: str -> int       // which text (name, symbol, uri) the token and the metadata records carry
  }

  type Obs = { name: str, n: str -> int, s: str -> str }

  type SwapArgs = { dir: int, mode: int, a0: int, a1: int, who: str, referral: str, legacy: bool }
  type Venue1 = { auth: str, num: int, den: int, dur: int, partnerFee: int, vaultCfg: str }
  type Venue2 = { auth: str, feeNum: int, mode: int, n: int, freq: int, red: int, min: int, max: int, vaultCfg: str, act: int }

  type Act =
    | CreateConfig(Params)
    | InitPool({ t22: bool, creator: str, text: int })
    | Swap(SwapArgs)
    | ClaimTrade({ side: str, a: int, b: int, by: str, baseTo: str, quoteTo: str })
    | ClaimProtocol({ a: int, b: int, by: str })
    | Zap({ isBase: bool, amount: int, by: str, to: str, accept: bool })
    | Surplus({ side: str, by: str, to: str })
    | WithdrawMigFee({ flag: int, by: str, to: str })
    | ClaimCreationFee({ side: str, by: str, to: str })
    | CreateLocker({ by: str, evil: int })
    | V1Meta({ by: str })
    | V1Migrate({ by: str, lp: int, evil: int, venue: Venue1 })
    | V1LockLp({ owner: str, by: str, evil: int })
    | V1ClaimLp({ owner: str, by: str })
    | V2Meta({ by: str })
    | V2Migrate({ by: str, evil: int, second: bool, venue: Venue2 })
    | Leftover({ by: str })
    | TransferCreator({ to: str, by: str, meta: str })
    | CreateOperator({ who: str, perm: int, by: str })
    | CloseOperator({ who: str, by: str })
    | CloseLegacy({ by: str })
    | PartnerMeta({ who: str, by: str, text: int })
    | PoolMeta({ by: str, text: int })
    // an instruction of some other program in the same transaction; `mimic`: it looks like a pool creation or a swap
    | Foreign({ touches: bool, mimic: int })
    | OtherInit({ extra: bool })           // creates one more unrelated pool; `extra`: our pool is among the accounts it ignores
    | TwinSwap({ a: int })                 // a swap of this program on an unrelated pool
    | Warp({ slots: int, secs: int })
    | Donate({ to: str, amount: int })
    | Overshoot({ amount: int })          // a completing swap of an earlier program version left this much more quote
    // what an earlier program version left behind: 1 a legacy creation fee, 2 no protocol share of the migration,
    // 3 a curve of more points than can be configured now (`n` how many more)
    | Inherit({ kind: int, n: int })

  // `via`: how the instruction reaches the program: 0 top level, 1 called by another program, 2 called by a program
  // that was itself called; `join`: part of the same outer instruction as the one before;
  // `sv`: what is passed as instructions sysvar ("no", "real", "fake");
  // `sub`: accounts of the instruction replaced by others ("!nosign": the signature is withheld)
  type Sub = { slot: str, repl: str }
  type Ix = { act: Act, via: int, join: bool, sv: str, sub: List[Sub] }
  type Res = { ok: bool, err: str, events: List[Obs], calls: List[Obs], touched: Set[str] }
  // what the quote library answers
  type Quote = { ok: bool, incl: int, excl: int, left: int, out: int, price: int, trade: int, prot: int, ref: int }
  type Quotes = { has: bool, later: Quote, first: Quote }
  // what crossed the program's boundary byte for byte (reported where it is judged): an instruction's data and accounts, its
  // events, and the program's accounts afterwards; `key`: the keys behind the names, `texts`: the texts by number
  type Bytes = List[int]
  type Meta = { k: str, s: bool, w: bool }
  type Wire = { on: bool, data: Bytes, accts: List[Meta], events: List[Bytes], recs: str -> Bytes, key: str -> int, texts: List[List[Bytes]], err: { name: str, n: int } }
  pure val SILENT: Wire = { on: false, data: [], accts: [], events: [], recs: Map(), key: Map(), texts: [], err: { name: "", n: -1 } }
  type Trans = { pre: World, ix: Ix, prev: List[Ix], res: Res, post: World, quote: Quotes, wire: Wire }

  // a reason to refuse an instruction, and the property that demands the refusal
  type Why = { p: str, r: str }
  // what the specification says about an instruction
  type Exp = { ok: bool, why: Set[Why], w: World, ev: List[Obs], calls: List[Obs] }
}
