// The program's boundary byte for byte: how instructions are encoded and which accounts they take in which order, where
// every field of every account of the program is, and how events are laid out. This is what clients, indexers and
// accounts written by released versions (scripts/idl/release_*.json) depend on; it is written down from those releases
// and the fields later versions added in their padding.
module wire {
  import num.* from "./num"
  import curve.* from "./curve"
  import fees.* from "./fees"
  import types.* from "./types"
  import step.* from "./step"

  // the first eight bytes of an instruction, an event and an account, read as an integer
  pure val CALL: str -> int = Map(
    "create_operator_account" -> 11810014856436138205,
    "close_operator_account" -> 2090540457449032107,
    "close_claim_protocol_fee_operator" -> 1907609037916547336,
    "claim_protocol_fee" -> 2449950926723998885,
    "claim_protocol_pool_creation_fee" -> 3898316211696684402,
    "zap_protocol_fee" -> 17319637144200518613,
    "create_partner_metadata" -> 18438830599686498496,
    "create_config" -> 13632236966915592137,
    "claim_trading_fee" -> 5886624280566426632,
    "claim_partner_pool_creation_fee" -> 17898723886239510266,
    "partner_withdraw_surplus" -> 6640103317714808232,
    "initialize_virtual_pool_with_spl_token" -> 5721883141255681420,
    "initialize_virtual_pool_with_token2022" -> 11230973141116483241,
    "create_virtual_pool_metadata" -> 9690741437623918893,
    "claim_creator_trading_fee" -> 3272803028775394386,
    "creator_withdraw_surplus" -> 5786147076207870885,
    "transfer_pool_creator" -> 2424787327267702548,
    "withdraw_migration_fee" -> 11735824830483500781,
    "swap" -> 14449647541112719096,
    "swap2" -> 9825548078193527617,
    "create_locker" -> 6057674975551773351,
    "withdraw_leftover" -> 4807579321873647124,
    "migration_meteora_damm_create_metadata" -> 9638515593279594031,
    "migrate_meteora_damm" -> 15669781996181127451,
    "migrate_meteora_damm_lock_lp_token" -> 3072960158459901873,
    "migrate_meteora_damm_claim_lp_token" -> 11132776624414688651,
    "migration_damm_v2_create_metadata" -> 5971412204691635565,
    "migration_damm_v2" -> 4634454934591809948)
  pure val EVENT: str -> int = Map(
    "swap" -> 10645289657477446683,
    "swap2" -> 11057832587039031997,
    "complete" -> 1750640886151571429,
    "partnerMeta" -> 10810926146632712136,
    "poolMeta" -> 5343058902278214332,
    "config" -> 3937634489579392899,
    "config2" -> 10383826809866308259,
    "closeLegacy" -> 1712168776237393775,
    "init" -> 2703922067370554084,
    "claimProtocol" -> 2384952582990460090,
    "claimPartner" -> 18334376583545312026,
    "claimCreator" -> 10004354621186237594,
    "v1meta" -> 10065421842547844963,
    "partnerSurplus" -> 1595198854449871043,
    "creatorSurplus" -> 11328056378952862104,
    "leftover" -> 16527819685457608127,
    "newCreator" -> 15912798976049799531,
    "migFee" -> 15448498603476437786,
    "creationFeeProtocol" -> 4516899904883617685,
    "creationFeePartner" -> 14076390487752499118)
  pure val RECORD: str -> int = Map(
    "config" -> 3135040203581713434,
    "pool" -> 6662870464433873109,
    "v1meta" -> 11278426132540398353,
    "operator" -> 8488312528600571867,
    "legacy" -> 10861776451116871846,
    "partnerMeta" -> 11268799084611388484,
    "poolMeta" -> 18366857046253512153)

  // a field: a value and the number of bytes it takes, the lowest first
  type Field = { v: int, n: int }
  pure def u8(v: int): List[Field] = [{ v: v, n: 1 }]
  pure def u16(v: int): List[Field] = [{ v: v, n: 2 }]
  pure def u32(v: int): List[Field] = [{ v: v, n: 4 }]
  pure def u64(v: int): List[Field] = [{ v: v, n: 8 }]
  pure def u128(v: int): List[Field] = [{ v: v, n: 16 }]
  pure def flag(b: bool): List[Field] = [{ v: if (b) 1 else 0, n: 1 }]
  pure def zeros(n: int): List[Field] = [{ v: 0, n: n }]
  pure def raw(b: Bytes): List[Field] = b.foldl([], (l, x) => l.append({ v: x, n: 1 }))
  pure def text(b: Bytes): List[Field] = u32(b.length()).concat(raw(b))
  pure def seq(l: List[List[Field]]): List[Field] = l.foldl([], (a, x) => a.concat(x))
  pure def keyed(k: str -> int, name: str): List[Field] = [{ v: if (k.keys().contains(name)) k.get(name) else FAIL, n: 32 }]

  pure def value(b: Bytes): int = range(0, b.length()).foldl(0, (a, i) => a * 256 + b[b.length() - 1 - i])
  pure def holds(b: Bytes, parts: List[Field]): bool = {
    pure val r = parts.foldl({ at: 0, ok: true }, (a, f) => { at: a.at + f.n, ok: a.ok and a.at + f.n <= b.length() and value(b.slice(a.at, a.at + f.n)) == f.v })
    r.ok and r.at == b.length()
  }

  // ---- accounts of the program
  pure def baseFee(b: Base): List[Field] = seq([u64(b.cliff), u64(b.f2), u64(b.f3), u16(b.f1), u8(b.bmode), zeros(5)])
  pure def dynFee(d: Dyn): List[Field] =
    seq([flag(d.on), zeros(7), u32(d.maxVol), u32(d.vfc), u16(d.bin), u16(d.filter), u16(d.decay), u16(d.red), zeros(8), u128(d.binQ)])
  pure def vesting(v: Vest): List[Field] = seq([flag(v.on), u8(v.pct), zeros(2), u16(v.bps), u16(v.n), u32(v.freq), u32(v.cliff)])
  pure def configRecord(k: str -> int, c: Cfg): List[Field] = seq([
    u64(RECORD.get("config")), keyed(k, c.quoteMint), keyed(k, c.partner), keyed(k, c.leftoverTo), baseFee(c.base), dynFee(c.dyn), vesting(c.pv), vesting(c.cv),
    zeros(14), zeros(2), u8(c.collect), u8(c.migOpt), u8(c.actType), u8(c.decimals), zeros(1), u8(c.tokenType), u8(c.quoteFlag),
    u8(c.pPerm), u8(c.pLiq), u8(c.cPerm), u8(c.cLiq), u8(c.migFeeOpt), u8(c.fixedSupply), u8(c.creatorPct), u8(c.tokAuth),
    u8(c.migFeePct), u8(c.creatorMigPct), zeros(7), u64(c.swapBase), u64(c.migQuote), u64(c.migBase), u128(c.migPrice),
    u64(c.lv.per), u64(c.lv.cliffDur), u64(c.lv.freq), u64(c.lv.n), u64(c.lv.cliffAmt), zeros(8), u64(c.preSupply), u64(c.postSupply),
    u8(c.mCollect), u8(c.mDyn), u16(c.mFeeBps), u8(c.mBaseMode), u8(c.firstMin), u16(c.mComp), u64(c.creationFee),
    u16(c.mSched.n), u16(c.mSched.step), u32(c.mSched.expiry), u64(c.mSched.red), u128(c.start),
    c.curve.foldl([], (l, p) => l.concat(u128(p.p)).concat(u128(p.l))), zeros(32 * (20 - c.curve.length()))])
  pure def poolRecord(k: str -> int, p: Pool): List[Field] = seq([
    u64(RECORD.get("pool")), u64(p.vol.last), zeros(8), u128(p.vol.refp), u128(p.vol.acc), u128(p.vol.vref),
    keyed(k, p.cfg), keyed(k, p.creator), keyed(k, p.baseMint), keyed(k, p.baseVault), keyed(k, p.quoteVault),
    u64(p.baseRes), u64(p.quoteRes), u64(p.protB), u64(p.protQ), u64(p.partB), u64(p.partQ), u128(p.price), u64(p.act),
    u8(p.kind), u8(p.migrated), u8(p.partSurp), u8(p.protSurp), u8(p.stage), u8(p.leftover), u8(p.creSurp), u8(p.migFeeBits),
    u64(p.totProtB), u64(p.totProtQ), u64(p.totTradB), u64(p.totTradQ), u64(p.finish), u64(p.creB), u64(p.creQ),
    u8(p.legacyBits), u8(p.creationBits), u8(p.hasSwap), zeros(5), u16(p.lmfBps), zeros(6), u64(p.migProtB), u64(p.migProtQ), zeros(24)])
  pure def v1Record(k: str -> int, m: V1): List[Field] = seq([
    u64(RECORD.get("v1meta")), keyed(k, m.pool), zeros(32), keyed(k, m.partner), keyed(k, m.lpMint), u64(m.pLocked), u64(m.pLp), u64(m.cLocked), u64(m.cLp),
    zeros(1), u8(m.cLockedDone), u8(m.pLockedDone), u8(m.cClaimed), u8(m.pClaimed), zeros(107)])
  pure def operatorRecord(k: str -> int, who: str, perm: int): List[Field] = seq([u64(RECORD.get("operator")), keyed(k, who), u128(perm), zeros(16)])
  pure def legacyRecord(k: str -> int): List[Field] = seq([u64(RECORD.get("legacy")), keyed(k, "op1"), zeros(128)])
  pure def textRecord(k: str -> int, kind: str, whose: str, t: List[Bytes]): List[Field] =
    seq([u64(RECORD.get(kind)), keyed(k, whose), zeros(96), text(t[0]), text(t[1]), text(t[2])])

  // ---- arguments
  pure def dynArgs(d: Dyn): List[Field] = seq([u16(d.bin), u128(d.binQ), u16(d.filter), u16(d.decay), u16(d.red), u32(d.maxVol), u32(d.vfc)])
  pure def feeArgs(p: Params): List[Field] = seq([
    u64(p.base.cliff), u16(p.base.f1), u64(p.base.f2), u64(p.base.f3), u8(p.base.bmode), flag(p.hasDyn), if (p.hasDyn) dynArgs(p.dyn) else []])
  pure def vestArgs(v: Vest): List[Field] = seq([u8(v.pct), u16(v.bps), u16(v.n), u32(v.cliff), u32(v.freq)])
  pure def lockArgs(l: LockVest): List[Field] = seq([u64(l.per), u64(l.cliffDur), u64(l.freq), u64(l.n), u64(l.cliffAmt)])
  pure def curveArgs(c: List[Pt]): List[Field] = c.foldl(u32(c.length()), (l, p) => l.concat(u128(p.p)).concat(u128(p.l)))
  pure def configArgs(p: Params): List[Field] = seq([
    feeArgs(p), u8(p.collect), u8(p.migOpt), u8(p.actType), u8(p.tokenType), u8(p.decimals), u8(p.pLiq), u8(p.pPerm), u8(p.cLiq), u8(p.cPerm),
    u64(p.migQuote), u128(p.start), lockArgs(p.lv), u8(p.migFeeOpt),
    flag(p.hasSupply), if (p.hasSupply) u64(p.preSupply).concat(u64(p.postSupply)) else [],
    u8(p.creatorPct), u8(p.tokAuth), u8(p.migFeePct), u8(p.creatorMigPct), u8(p.mCollect), u8(p.mDyn), u16(p.mFeeBps), u64(p.creationFee),
    vestArgs(p.pv), vestArgs(p.cv), u8(p.mBaseMode), u16(p.mSched.n), u16(p.mSched.step), u32(p.mSched.expiry), u64(p.mSched.red),
    flag(p.firstMin), u16(p.mComp), zeros(2), curveArgs(p.curve)])

  // ---- instructions: arguments and accounts
  pure def ro(k: str): Meta = { k: k, s: false, w: false }
  pure def rw(k: str): Meta = { k: k, s: false, w: true }
  pure def sig(k: str): Meta = { k: k, s: true, w: false }
  pure def signs(k: str): Meta = { k: k, s: true, w: true }
  pure def ros(l: List[str]): List[Meta] = l.foldl([], (a, k) => a.append(ro(k)))
  pure def rws(l: List[str]): List[Meta] = l.foldl([], (a, k) => a.append(rw(k)))
  pure val own: List[Meta] = ros(["evauth", "dbc"])
  // reserved names: the system program is the all-zero key
  pure val SYS = "none"

  pure def quoteAcct(who: str): str = quoteOf.getOrS(who)
  pure def baseAcct(who: str): str = baseOf.getOrS(who)
  pure def lpAcct(who: str): str = lpOf.getOrS(who)
  pure def escLp(who: str): str = escOf.getOrS(who)
  pure val people: Set[str] = wallets
  pure val escrows: str -> str = Map("partner" -> "esc:partner", "creator" -> "esc:creator", "heir" -> "esc:heir", "eve" -> "esc:eve")
  pure def escrow(who: str): str = escrows.getOrS(who)
  pure val operators: str -> str = Map("partner" -> "op:partner", "creator" -> "op:creator", "heir" -> "op:heir", "leftover" -> "op:leftover", "trader0" -> "op:trader0", "trader1" -> "op:trader1", "referrer" -> "op:referrer", "admin0" -> "op:admin0", "admin1" -> "op:admin1", "op0" -> "op:op0", "op1" -> "op:op1", "eve" -> "op:eve", "cranker" -> "op:cranker", "treasury" -> "op:treasury")
  pure def opOf(who: str): str = operators.getOrS(who)

  type Call = { name: str, args: List[Field], accts: List[Meta] }
  pure def call(name: str, args: List[Field], accts: List[List[Meta]]): Call = { name: name, args: args, accts: accts.foldl([], (a, x) => a.concat(x)) }
  pure def encoded(w: World, ix: Ix, texts: List[List[Bytes]]): Call = {
    pure val baseProg = if (w.t22) "t22" else "tok"
    pure val quoteProg = if (w.quoteKind >= 2) "t22" else "tok"
    pure val vaults = rws(["vault.b", "vault.q"])
    pure val mints = ros(["mint.b", "mint.q"])
    pure val progs = ros([baseProg, quoteProg])
    match ix.act {
      | CreateConfig(p) => call("create_config", configArgs(p), [[signs("cfg"), ro(p.partner), ro(p.leftoverTo), ro(p.quote), signs("cranker"), ro(SYS)], own])
      | InitPool(x) => {
          pure val args = seq([text(texts[x.text][0]), text(texts[x.text][1]), text(texts[x.text][2])])
          pure val front = [ro("cfg"), ro("authority"), sig(x.creator), signs("mint.b"), ro("mint.q"), rw("pool"), rw("vault.b"), rw("vault.q")]
          if (x.t22) call("initialize_virtual_pool_with_token2022", args, [front, [signs("cranker"), ro(quoteProg), ro("t22"), ro(SYS)], own])
          else call("initialize_virtual_pool_with_spl_token", args, [front, [rw("meta.b"), ro("mpl"), signs("cranker"), ro(quoteProg), ro("tok"), ro(SYS)], own])
        }
      | Swap(x) => call(if (x.legacy) "swap" else "swap2", if (x.legacy) u64(x.a0).concat(u64(x.a1)) else seq([u64(x.a0), u64(x.a1), u8(x.mode)]),
          [ros(["authority", "cfg"]), [rw("pool"), rw(if (x.dir == 1) quoteAcct(x.who) else baseAcct(x.who)), rw(if (x.dir == 1) baseAcct(x.who) else quoteAcct(x.who))],
           vaults, mints, [sig(x.who)], progs, [rw(if (x.referral == "none") "dbc" else x.referral)], own,
           if (ix.sv == "real") [ro("ixs")] else if (ix.sv == "fake") [ro("fakeixs")] else []])
      | ClaimTrade(x) => call(if (x.side == "partner") "claim_trading_fee" else "claim_creator_trading_fee", u64(x.a).concat(u64(x.b)),
          [[ro("authority")], if (x.side == "partner") [ro("cfg")] else [], rws(["pool", x.baseTo, x.quoteTo]), vaults, mints, [sig(x.by)], progs, own])
      | ClaimProtocol(x) => call("claim_protocol_fee", u64(x.a).concat(u64(x.b)), [ros(["authority", "cfg"]), [rw("pool")], vaults, mints,
          rws(["treasury.b", "treasury.q"]), [ro(opOf(x.by)), sig(x.by)], progs, own])
      | Zap(x) => call("zap_protocol_fee", u64(x.amount), [ros(["authority", "cfg"]), [rw("pool"), rw(if (x.isBase) "vault.b" else "vault.q"), ro(if (x.isBase) "mint.b" else "mint.q"),
          rw(x.to), ro(opOf(x.by)), sig(x.by), ro(if (x.isBase) baseProg else quoteProg), ro("ixs")]])
      | Surplus(x) => call(if (x.side == "partner") "partner_withdraw_surplus" else "creator_withdraw_surplus", [],
          [ros(["authority", "cfg"]), rws(["pool", x.to, "vault.q"]), [ro("mint.q"), sig(x.by), ro(quoteProg)], own])
      | WithdrawMigFee(x) => call("withdraw_migration_fee", u8(x.flag), [ros(["authority", "cfg"]), rws(["pool", x.to, "vault.q"]), [ro("mint.q"), sig(x.by), ro(quoteProg)], own])
      | ClaimCreationFee(x) =>
          if (x.side == "partner") call("claim_partner_pool_creation_fee", [], [[ro("cfg"), rw("pool"), sig(x.by), rw(x.to)], own])
          else call("claim_protocol_pool_creation_fee", [], [[ro("cfg"), rw("pool"), ro(opOf(x.by)), sig(x.by), rw(x.to)], own])
      | CreateLocker(x) => call("create_locker", [], [[rw("pool"), ro("cfg")], rws(["authority", "vault.b", "mint.b", "lbase"]), [ro(w.pool.creator)], rws(["lescrow", "locker.b"]),
          [signs(x.by)], ros([baseProg, "locker", "locker.ev", SYS])])
      | V1Meta(x) => call("migration_meteora_damm_create_metadata", [], [[ro("pool"), ro("cfg"), rw("v1meta"), signs(x.by), ro(SYS)], own])
      | V1Migrate(x) => call("migrate_meteora_damm", [], [rws(["pool", "v1meta"]), [ro("cfg")], rws(["authority", "v1.pool"]), [ro("v1.cfg"), rw("v1.lp"), rw("mint.b"), ro("mint.q")],
          rws(["v1.avault", "v1.bvault", "v1.b", "v1.q", "v1.avlm", "v1.bvlm", "v1.avl", "v1.bvl", "vault.b", "vault.q", "authority.lp", "v1.pfa", "v1.pfb"]),
          [signs(x.by), ro("rent"), rw("v1.lpmeta")], ros(["mpl", "v1", "v1.vaultprog", "tok", "ata", SYS])])
      | V1LockLp(x) => call("migrate_meteora_damm_lock_lp_token", [], [[ro("pool")], rws(["v1meta", "authority", "v1.pool"]), [ro("v1.lp"), rw(escrow(x.owner)), ro(x.owner)],
          rws(["authority.lp", escLp(x.owner)]), ros(["v1", "v1.avault", "v1.bvault", "v1.avl", "v1.bvl", "v1.avlm", "v1.bvlm", "tok"])])
      | V1ClaimLp(x) => call("migrate_meteora_damm_claim_lp_token", [], [[ro("pool")], rws(["v1meta", "authority"]), [ro("v1.lp")], rws(["authority.lp", lpAcct(x.owner)]),
          [ro(x.owner), sig(x.by), ro("tok")]])
      | V2Meta(x) => call("migration_damm_v2_create_metadata", [], [ros(["pool", "cfg", "v2meta", x.by, SYS]), own])
      | V2Migrate(x) => call("migration_damm_v2", [], [[rw("pool"), ro("v2meta"), ro("cfg")], rws(["authority", "v2.pool"]), [signs("nft1")], rws(["nft1.t", "pos1"]),
          if (x.second) [signs("nft2"), rw("nft2.t"), rw("pos2")] else rws(["dbc", "dbc", "dbc"]), ros(["v2.auth", "v2"]), rws(["mint.b", "mint.q", "v2.b", "v2.q", "vault.b", "vault.q"]),
          [signs(x.by)], progs, ros(["t22", "v2.ev", SYS, "v2.cfg"])])
      | Leftover(x) => call("withdraw_leftover", [], [ros(["authority", "cfg"]), rws(["pool", "leftover.b", "vault.b"]), ros(["mint.b", "leftover", baseProg]), own])
      | TransferCreator(x) => call("transfer_pool_creator", [], [[rw("pool"), ro("cfg"), sig(x.by), ro(x.to)], own, if (x.meta == "none") [] else [ro(x.meta)]])
      | CreateOperator(x) => call("create_operator_account", u128(x.perm), [[rw(opOf(x.who)), ro(x.who), sig(x.by), signs("cranker"), ro(SYS)], own])
      | CloseOperator(x) => call("close_operator_account", [], [[rw(opOf(x.who)), sig(x.by), rw("cranker")]])
      | CloseLegacy(x) => call("close_claim_protocol_fee_operator", [], [[rw("legacyop"), rw("cranker"), sig(x.by)], own])
      | PartnerMeta(x) => call("create_partner_metadata", seq([zeros(96), text(texts[x.text][0]), text(texts[x.text][1]), text(texts[x.text][2])]),
          [[rw(metaOf.getOrS(x.who)), signs("cranker"), sig(x.by), ro(SYS)], own])
      | PoolMeta(x) => call("create_virtual_pool_metadata", seq([zeros(96), text(texts[x.text][0]), text(texts[x.text][1]), text(texts[x.text][2])]),
          [rws(["pool", "plmeta"]), [sig(x.by), signs("cranker"), ro(SYS)], own])
      | Foreign(_) => call("", [], []) | OtherInit(_) => call("", [], []) | TwinSwap(_) => call("", [], []) | Warp(_) => call("", [], [])
      | Donate(_) => call("", [], []) | Overshoot(_) => call("", [], []) | Inherit(_) => call("", [], [])
    }
  }
  // accounts in the same order; the program asks for no signature and no write access that callers do not give
  pure def fitting(seen: List[Meta], given: List[Meta]): bool =
    seen.length() == given.length() and seen.indices().forall(i => seen[i].k == given[i].k and (seen[i].s implies given[i].s) and (seen[i].w implies given[i].w))

  // ---- events
  pure def eventBytes(k: str -> int, e: Obs, act: Act): List[Field] = {
    pure def n(f: str): int = if (e.n.keys().contains(f)) e.n.get(f) else FAIL
    pure def s(f: str): List[Field] = if (e.s.keys().contains(f)) keyed(k, e.s.get(f)) else [{ v: FAIL, n: 32 }]
    pure val id = if (EVENT.keys().contains(e.name)) u64(EVENT.get(e.name)) else u64(FAIL)
    seq([id,
      if (e.name == "swap") seq([s("pool"), s("cfg"), u8(n("dir")), u8(n("hasRef")), u64(n("a0")), u64(n("a1")), u64(n("in")), u64(n("out")), u128(n("price")),
        u64(n("trade")), u64(n("prot")), u64(n("ref")), u64(n("amountIn")), u64(n("ts"))])
      else if (e.name == "swap2") seq([s("pool"), s("cfg"), u8(n("dir")), u8(n("hasRef")), u64(n("a0")), u64(n("a1")), u8(n("mode")), u64(n("incl")), u64(n("excl")), u64(n("left")),
        u64(n("out")), u128(n("price")), u64(n("trade")), u64(n("prot")), u64(n("ref")), u64(n("quoteRes")), u64(n("threshold")), u64(n("ts"))])
      else if (e.name == "complete") seq([s("pool"), s("cfg"), u64(n("baseRes")), u64(n("quoteRes"))])
      else if (e.name == "partnerMeta") seq([s("meta"), s("partner")])
      else if (e.name == "poolMeta") seq([s("meta"), s("pool")])
      else if (e.name == "config") match act {
        | CreateConfig(p) => seq([s("cfg"), s("quote"), s("partner"), s("leftoverTo"), feeArgs(p), u8(p.collect), u8(p.migOpt), u8(p.actType), u8(p.decimals), u8(p.tokenType),
            u8(p.pPerm), u8(p.pLiq), u8(p.cPerm), u8(p.cLiq), u64(n("swapBase")), u64(p.migQuote), u64(n("migBase")), u128(p.start), lockArgs(p.lv), u8(p.migFeeOpt),
            u8(n("fixedSupply")), u64(n("preSupply")), u64(n("postSupply")), curveArgs(p.curve)])
        | _ => zeros(1) }
      else if (e.name == "config2") match act {
        | CreateConfig(p) => seq([s("cfg"), s("quote"), s("partner"), s("leftoverTo"), configArgs(p)])
        | _ => zeros(1) }
      else if (e.name == "closeLegacy") seq([s("account"), s("operator")])
      else if (e.name == "init") seq([s("pool"), s("cfg"), s("creator"), s("mint"), u8(n("kind")), u64(n("act"))])
      else if (Set("claimProtocol", "claimPartner", "claimCreator").contains(e.name)) seq([s("pool"), u64(n("base")), u64(n("quote"))])
      else if (e.name == "v1meta") s("pool")
      else if (e.name == "partnerSurplus" or e.name == "creatorSurplus") seq([s("pool"), u64(n("amount"))])
      else if (e.name == "leftover") seq([s("pool"), s("to"), u64(n("amount"))])
      else if (e.name == "newCreator") seq([s("pool"), s("from"), s("to")])
      else if (e.name == "migFee") seq([s("pool"), u64(n("amount")), u8(n("flag"))])
      else if (e.name == "creationFeeProtocol") seq([s("pool"), s("to"), u64(n("amount"))])
      else if (e.name == "creationFeePartner") seq([s("pool"), s("partner"), u64(n("amount")), s("to")])
      else zeros(1)
    ])
  }

  // the program's errors in the order of their numbers (new ones only ever come at the end)
  pure val FIRST_ERROR = 6000
  pure val ERRORS: List[str] = ["MathOverflow", "InvalidFee", "ExceededSlippage", "ExceedMaxFeeBps", "InvalidAdmin", "AmountIsZero",
    "TypeCastFailed", "InvalidActivationType", "InvalidQuoteMint", "InvalidCollectFeeMode", "InvalidMigrationFeeOption", "InvalidInput",
    "NotEnoughLiquidity", "PoolIsCompleted", "PoolIsIncompleted", "InvalidMigrationOption", "InvalidTokenDecimals", "InvalidTokenType",
    "InvalidFeePercentage", "InvalidQuoteThreshold", "InvalidTokenSupply", "InvalidCurve", "NotPermitToDoThisAction", "InvalidOwnerAccount",
    "InvalidConfigAccount", "SurplusHasBeenWithdraw", "LeftoverHasBeenWithdraw", "TotalBaseTokenExceedMaxSupply", "UnsupportNativeMintToken2022", "InsufficientLiquidityForMigration",
    "MissingPoolConfigInRemainingAccount", "InvalidVestingParameters", "InvalidLeftoverAddress", "InsufficientLiquidity", "InvalidFeeScheduler", "InvalidCreatorTradingFeePercentage",
    "InvalidNewCreator", "InvalidTokenAuthorityOption", "InvalidAccount", "InvalidMigratorFeePercentage", "MigrationFeeHasBeenWithdraw", "InvalidBaseFeeMode",
    "InvalidFeeRateLimiter", "FailToValidateSingleSwapInstruction", "InvalidMigratedPoolFee", "UndeterminedError", "RateLimiterNotSupported", "AmountLeftIsNotZero",
    "NextSqrtPriceIsSmallerThanStartSqrtPrice", "InvalidMinBaseFee", "AccountInvariantViolation", "InvalidPoolCreationFee", "PoolCreationFeeHasBeenClaimed", "Unauthorized",
    "ZeroPoolCreationFee", "InvalidMigrationLockedLiquidity", "InvalidFeeMarketCapScheduler", "FirstSwapValidationFailed", "IncorrectATA", "InsufficientPoolLamports",
    "InvalidPermission", "InvalidWithdrawProtocolFeeZapAccounts", "MintRestrictedFromZap", "InvalidZapOutParameters", "CpiDisabled", "MissingZapOutInstruction",
    "InvalidZapAccounts", "InvalidCompoundingParameters"]
  // an error known by its name has kept its number, and a number known has kept its meaning
  pure def errorKept(x: { name: str, n: int }): bool = {
    pure val i = x.n - FIRST_ERROR
    pure val known = ERRORS.indices().exists(k => ERRORS[k] == x.name)
    x.name == "" or if (known) i >= 0 and i < ERRORS.length() and ERRORS[i] == x.name else i < 0 or i >= ERRORS.length()
  }

  // ---- the verdict
  pure def recordsKept(t: Trans): Set[str] = {
    pure val k = t.wire.key
    pure val r = t.wire.recs
    pure def there(name: str, on: bool, parts: List[Field]): bool = r.keys().contains(name) == on and (on implies holds(r.get(name), parts))
    pure def whoText(name: str): List[Bytes] = { pure val i = if (t.post.texts.keys().contains(name)) t.post.texts.get(name) else FAIL if (i < 0) [[], [], []] else t.wire.texts[i] }
    Set(
      (there("cfg", t.post.hasCfg, configRecord(k, t.post.cfg)), "the configuration's bytes"),
      (there("pool", t.post.hasPool, poolRecord(k, t.post.pool)), "the pool's bytes"),
      (there("v1meta", t.post.v1.on, v1Record(k, t.post.v1)), "the v1 metadata's bytes"),
      (there("legacyop", t.post.metas.contains("legacyop"), legacyRecord(k)), "an earlier operator's bytes"),
      (there("plmeta", t.post.metas.contains("plmeta"), textRecord(k, "poolMeta", "pool", whoText("plmeta"))), "the pool metadata's bytes"),
      (people.forall(x => there(metaOf.getOrS(x), t.post.metas.contains(metaOf.getOrS(x)), textRecord(k, "partnerMeta", x, whoText(metaOf.getOrS(x))))), "a partner metadata's bytes"),
      (people.forall(x => there(opOf(x), t.post.ops.keys().contains(x), operatorRecord(k, x, t.post.ops.getOr(x)))), "an operator's bytes")
    ).filter(x => not(x._1)).map(x => x._2)
  }
  pure def wireFaults(t: Trans): Set[str] = {
    pure val c = encoded(t.pre, t.ix, t.wire.texts)
    pure val ours = c.name != "" and t.ix.sub == []
    pure val sent = if (not(ours)) Set() else Set(
      (holds(t.wire.data, u64(CALL.get(c.name)).concat(c.args)), "the instruction's bytes"),
      (fitting(t.wire.accts, c.accts), "the instruction's accounts"),
      (t.wire.events.length() == t.res.events.length() and t.res.events.indices().forall(i => holds(t.wire.events[i], eventBytes(t.wire.key, t.res.events[i], t.ix.act))), "an event's bytes")
    ).filter(x => not(x._1)).map(x => x._2)
    if (t.res.ok) sent.union(recordsKept(t)) else if (errorKept(t.wire.err)) Set() else Set("an error's number")
  }
}
