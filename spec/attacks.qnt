// Account substitutions: for every instruction, ways to pass an account of somebody else, of another launch, or to
// withhold a signature. Each list of substitutions turns an instruction that would succeed into one that must fail.
module attacks {
  import types.* from "./types"

  pure def one(slot: str, repls: List[str]): List[List[Sub]] = repls.foldl([], (acc, r) => acc.append([{ slot: slot, repl: r }]))
  pure def two(a: str, x: str, b: str, y: str): List[Sub] = [{ slot: a, repl: x }, { slot: b, repl: y }]
  pure def flat(ls: List[List[List[Sub]]]): List[List[Sub]] = ls.foldl([], (acc, l) => acc.concat(l))

  // "yes" is a program that accepts every call and does nothing
  pure val tokenPrograms: List[List[Sub]] = one("token_base_program", ["yes"]).concat(one("token_quote_program", ["yes"]))

  pure def vaultSubs(base: bool, quote: bool): List[List[Sub]] =
    (if (base) one("base_vault", ["tvault.b", "eve.b"]) else [])
      .concat(if (quote) one("quote_vault", ["tvault.q", "eve.q"]) else [])

  pure def attacks(w: World, act: Act): List[List[Sub]] = match (act) {
    | CreateConfig(_) => one("config", ["!nosign"])
    | InitPool(x) => flat([
        one("creator", ["!nosign"]), one("pool_authority", ["eve"]), one("quote_mint", ["mint.x"]),
        one("config", ["tcfg"]), one("base_mint", ["!nosign"]), one("token_program", ["yes"]), one("token_quote_program", ["yes"]),
        if (x.t22) [] else one("metadata_program", ["yes"])])
    | Swap(x) => flat([
        one("pool_authority", ["eve"]), one("config", ["tcfg"]), vaultSubs(true, true),
        one("base_mint", ["tmint.b", "mint.x"]), one("quote_mint", ["mint.x"]),
        one("payer", ["!nosign", "eve"]), one("pool", ["tpool"]), tokenPrograms,
        [two("base_vault", "vault.q", "quote_vault", "vault.b"), two("pool", "tpool", "config", "tcfg"),
         two("base_vault", "tvault.b", "quote_vault", "tvault.q")]])
    | ClaimTrade(x) => if (x.side == "partner") flat([
        one("pool_authority", ["eve"]), one("config", ["tcfg"]), one("pool", ["tpool"]), vaultSubs(true, true), tokenPrograms,
        one("base_mint", ["mint.x"]), one("quote_mint", ["mint.x"]), one("fee_claimer", ["!nosign", "eve"]),
        [two("config", "tcfg", "fee_claimer", "eve")]])
      else flat([
        one("pool_authority", ["eve"]), one("pool", ["tpool"]), vaultSubs(true, true), tokenPrograms,
        one("base_mint", ["mint.x"]), one("quote_mint", ["mint.x"]), one("creator", ["!nosign", "eve"]),
        [two("pool", "tpool", "creator", "eve")]])
    // an account to which nothing is paid does not matter
    | ClaimProtocol(x) => flat([
        one("operator", ["op:eve"]), one("signer", ["eve", "!nosign"]),
        if (x.a > 0 and w.pool.protB > 0) one("token_base_account", ["treasury2.b", "eve.b"]) else [],
        if (x.b > 0 and w.pool.protQ > 0) one("token_quote_account", ["treasury2.q", "eve.q"]) else [], one("config", ["tcfg"]), vaultSubs(true, true),
        one("pool", ["tpool"]), one("pool_authority", ["eve"]), tokenPrograms])
    | Zap(x) => flat([
        one("signer", ["eve", "!nosign"]), one("operator", ["op:eve"]),
        one("token_vault", [if (x.isBase) "tvault.b" else "tvault.q", if (x.isBase) "eve.b" else "eve.q"]),
        one("token_mint", ["mint.x"]), one("sysvar_instructions", ["fakeixs"]), one("pool_authority", ["eve"]),
        one("token_program", ["yes"]), one("receiver_token", [if (x.isBase) "eve.b" else "eve.q"]), one("config", ["tcfg"]), one("pool", ["tpool"])])
    | Surplus(x) =>
        if (x.side == "partner") flat([
          one("fee_claimer", ["!nosign", "eve"]), one("quote_vault", ["tvault.q", "eve.q"]), one("config", ["tcfg"]),
          one("virtual_pool", ["tpool"]), one("quote_mint", ["mint.x"]), one("pool_authority", ["eve"]), one("token_quote_program", ["yes"]),
          [two("config", "tcfg", "fee_claimer", "eve")]])
        else flat([
          one("creator", ["!nosign", "eve"]), one("quote_vault", ["tvault.q", "eve.q"]), one("config", ["tcfg"]),
          one("virtual_pool", ["tpool"]), one("quote_mint", ["mint.x"]), one("pool_authority", ["eve"]), one("token_quote_program", ["yes"]),
          [two("virtual_pool", "tpool", "creator", "eve")]])
    | WithdrawMigFee(_) => flat([
        one("sender", ["!nosign", "eve"]), one("config", ["tcfg"]), one("quote_vault", ["tvault.q", "eve.q"]),
        one("quote_mint", ["mint.x"]), one("virtual_pool", ["tpool"]), one("pool_authority", ["eve"]), one("token_quote_program", ["yes"]),
        [two("config", "tcfg", "sender", "eve"), two("virtual_pool", "tpool", "sender", "eve")]])
    | ClaimCreationFee(x) =>
        if (x.side == "partner") flat([one("fee_claimer", ["!nosign", "eve"]), one("config", ["tcfg"]), one("pool", ["tpool"]),
          [two("config", "tcfg", "fee_claimer", "eve")]])
        else flat([one("signer", ["!nosign", "eve"]), one("operator", ["op:eve"]), one("treasury", ["eve"]), one("config", ["tcfg"]), one("pool", ["tpool"])])
    | CreateLocker(_) => flat([
        one("creator", ["eve"]), one("base_vault", ["tvault.b", "eve.b"]), one("locker_program", ["v1", "yes"]), one("token_program", ["yes"]),
        one("pool_authority", ["eve"]), one("config", ["tcfg"]), one("base_mint", ["tmint.b"]), one("virtual_pool", ["tpool"])])
    | V1Meta(_) => one("virtual_pool", ["tpool"])
    | V1Migrate(_) => flat([
        one("migration_metadata", ["tv1meta"]), one("base_vault", ["tvault.b", "eve.b"]), one("quote_vault", ["tvault.q", "eve.q"]),
        one("config", ["tcfg"]), one("amm_program", ["v2", "yes"]), one("token_program", ["yes"]), one("pool_authority", ["eve"]), one("virtual_pool", ["tpool"])])
    | V1LockLp(_) => flat([
        one("lp_mint", ["mint.x"]), one("lock_escrow", ["esc:eve"]), one("owner", ["eve"]), one("source_tokens", ["eve.lp"]),
        one("migration_metadata", ["tv1meta"]), one("amm_program", ["v2", "yes"]), one("token_program", ["yes"]), one("pool_authority", ["eve"]), one("virtual_pool", ["tpool"])])
    | V1ClaimLp(_) => flat([
        one("destination_token", ["eve.lp"]), one("owner", ["eve"]), one("source_token", ["eve.lp"]), one("lp_mint", ["mint.x"]),
        one("sender", ["!nosign"]), one("token_program", ["yes"]), one("pool_authority", ["eve"]), one("migration_metadata", ["tv1meta"]), one("virtual_pool", ["tpool"]),
        [two("owner", "eve", "destination_token", "eve.lp")]])
    | V2Migrate(_) => flat([
        one("config", ["tcfg"]), one("base_vault", ["tvault.b", "eve.b"]), one("quote_vault", ["tvault.q", "eve.q"]),
        one("pool_authority", ["eve"]), one("amm_program", ["v1", "yes"]), one("virtual_pool", ["tpool"])])
    | Leftover(_) => flat([
        one("leftover_receiver", ["eve"]), one("token_base_account", ["eve.b", "leftover2.b"]), one("base_vault", ["tvault.b", "eve.b"]),
        one("config", ["tcfg"]), one("base_mint", ["tmint.b"]), one("virtual_pool", ["tpool"]), one("token_base_program", ["yes"]), one("pool_authority", ["eve"]),
        [two("leftover_receiver", "eve", "token_base_account", "eve.b")]])
    | TransferCreator(_) => flat([one("creator", ["!nosign", "eve"]), one("config", ["tcfg"]), one("virtual_pool", ["tpool"])])
    | CreateOperator(_) => flat([one("signer", ["!nosign", "eve", "op0", "partner"]), one("operator", ["op:eve"])])
    | CloseOperator(_) => one("signer", ["!nosign", "eve", "op0", "partner"])
    | CloseLegacy(_) => one("signer", ["!nosign", "eve", "op1"])
    | PartnerMeta(_) => one("fee_claimer", ["!nosign"])
    | PoolMeta(_) => flat([one("creator", ["!nosign", "eve"]), one("virtual_pool", ["tpool"])])
    | _ => []
  }
}
