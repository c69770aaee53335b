import json
P="programs/dynamic-bonding-curve/src/"
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":[x if x.startswith('dynamic') else P+x for x in files],"mechanism":[{"name":n,"where":P+w if not w.startswith('dynamic') else w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":P+w} for n,m,w in state]
    a["observe_at"]=obs or ["program entry point (accounts before/after the instruction)"]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
V="state/virtual_pool.rs"; C="state/config.rs"; S="instructions/swap/ix_swap.rs"
L=[]
L.append(p("C01","Vaults always cover reserves and every unclaimed entitlement",
"At every point of every history, a pool's base and quote vaults hold at least its trading reserves plus everything still owed to anyone: unclaimed partner, creator and protocol trading fees, and after the curve completes the unclaimed surplus shares, migration fees, protocol migration fees and locked-vesting amount. While a pool trades, and absent donations, each vault holds exactly reserves plus unclaimed fees. Consequently whatever is due can be paid in full, in any order of claims.",
["histories","inputs","configurations"],"all sequences of pool creation, swaps (both directions, all modes, with/without referral), claims, surplus/fee withdrawals, locker creation, migration and leftover withdrawal over all accepted configurations",
"Solvency is an invariant over interleavings of claims with swaps and migration; the unit tests run a few isolated curve computations and never move tokens through vaults.",
[V,S,"instructions/operator/ix_claim_protocol_fee.rs","instructions/partner/ix_withdraw_partner_surplus.rs","instructions/migration/withdraw_leftover.rs","instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs","instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"],
[("swap result application","state/virtual_pool.rs"),("claim amount computation","state/virtual_pool.rs"),("migration deposit/leftover accounting","instructions/migration/")],
[("base_reserve/quote_reserve","tokens the curve trades against",V),("fee buckets","unclaimed partner/creator/protocol fees per token",V)],["token balances of both vaults and all parties after each instruction"]))
L.append(p("C02","A swap settles exactly what it reports, token for token",
"A successful swap takes exactly the computed fee-inclusive input from the trader, pays the trader exactly the computed output and the referrer exactly its referral fee, and moves no other token; what enters and leaves the vaults equals the change of the pool's reserves plus the change of its unclaimed fees in each token. A failed swap changes nothing.",
["inputs","histories","configurations"],"all swaps: direction x mode x fee-collection mode x referral present/absent x dynamic/base fee setting, from every reachable pool state",
"Unit tests call pool arithmetic only; no test compares balances moved by the handler with the recorded state.",
[S,V,"utils/token.rs","instructions/swap/swap_exact_in.rs","instructions/swap/swap_exact_out.rs","instructions/swap/swap_partial_fill.rs"],
[("transfer of included input/output/referral","instructions/swap/ix_swap.rs"),("apply swap result to reserves and fee buckets","state/virtual_pool.rs")]))
L.append(p("C03","Curve pricing is exact per segment and always rounds in the pool's favour",
"For any state and amount a trade's output (or required input) and resulting price are those of walking the configured piecewise constant-liquidity curve: input needed per segment rounded up, output paid rounded down, and the next price rounded so that the pool never gives more than the exact real-valued curve. This holds in both directions, for exact-input, exact-output and partial-fill trades, and across any number of segments including trades landing exactly on a segment boundary.",
["inputs","configurations","histories"],"all configured curves (1..16 segments, zero-width or huge liquidity ratios), all prices on them, all 64-bit amounts",
"Proptests sample a couple of hand-written curves with one-sided inequalities; a one-unit rounding flip or a wrong segment at an exact boundary passes them.",
[V,"curve.rs","math/u128x128_math.rs","math/utils_math.rs","params/liquidity_distribution.rs"],
[("delta amount formulas","curve.rs"),("next sqrt price formulas","curve.rs"),("segment walk","state/virtual_pool.rs")]))
L.append(p("C04","Price stays on the curve, moves only with the trade, no free round trips",
"The pool price never falls below the configured start price nor exceeds the migration price; buying never lowers it and selling never raises it. A trader who buys and sells back (or sells and buys back) immediately, in any split and any mode, never ends with more of one token without having paid at least as much value in the other.",
["histories","inputs","configurations"],"all sequences of buys and sells from all reachable states, all accepted curves",
"Needs every reachable price and every trade sequence; tests check single swaps from the initial price.",
[V,"curve.rs"],[("clamping to start/migration price","state/virtual_pool.rs"),("rounding direction of next price","curve.rs")]))
L.append(p("C05","Exact-in, exact-out and partial-fill do what they promise within slippage",
"An exact-input trade consumes the whole stated input or fails; an exact-output trade delivers exactly the stated output or fails; a partial-fill trade consumes as much of the stated input as the curve can take and never more. A trade succeeds only if the output is at least the caller's minimum (or the input at most the caller's maximum), zero amounts are rejected, and the legacy entry point is the same as exact-input.",
["inputs","histories","configurations"],"all amounts and limits around the exact result (equal, one less, one more), all modes and directions, including trades that exhaust the curve",
"Slippage and leftover-input handling live in handlers no unit test executes.",
[S,"instructions/swap/swap_exact_in.rs","instructions/swap/swap_exact_out.rs","instructions/swap/swap_partial_fill.rs",V],
[("slippage checks","instructions/swap/"),("partial fill fee recomputation","state/virtual_pool.rs")]))
L.append(p("C06","The trading fee is exactly the rate times the amount, capped, in the right token",
"Every trade pays a fee of the fee-inclusive amount times the current total rate, rounded up, where the total rate is base plus dynamic rate and never exceeds 99%. The fee is taken in the quote token in both directions when the pool collects fees in quote only, and otherwise in the output token; for exact-output trades the charged amount is the smallest fee-inclusive one per the inverse formula.",
["inputs","configurations","histories"],"all rates 0.25%..99% and beyond the cap, all amounts, both collection modes, directions and trade modes",
"Fee arithmetic is tested at a few rates and amounts, never for the mode x direction x collection matrix at boundaries.",
[C,"state/fee.rs",V],[("included/excluded fee amount","state/config.rs"),("fee mode selection","state/fee.rs"),("rate cap","state/config.rs")]))
L.append(p("C07","Collected fees split exactly between protocol, referrer, partner and creator",
"Of every collected fee the protocol's part is 20% rounded down; a referrer, when given, receives 20% of that part rounded down and the protocol keeps the rest; the remainder goes to the creator at the configured percentage rounded down and otherwise to the partner. The parts always add up to the fee, are credited in the token in which the fee was taken, and the lifetime totals grow by the same amounts.",
["inputs","configurations","histories"],"all fee amounts (including 0..10 units where rounding dominates), all creator percentages 0..100, referral yes/no, both tokens",
"The split is spread over two rounding steps and four counters; tests check one of them for a few values.",
[C,V],[("fee split","state/config.rs"),("credit of buckets and metrics","state/virtual_pool.rs")]))
L.append(p("C08","Scheduled base fee follows its linear or exponential schedule at every moment",
"With a fee schedule the base rate at any moment is the starting rate reduced once per elapsed period since activation (by a constant amount, or by a constant factor), for at most the configured number of periods, measured in slots or seconds as configured. It never rises with time, never goes below the schedule's minimum, and is constant when no period is set.",
["inputs","configurations","histories"],"all schedules (mode, period count, period length, reduction) and all elapsed times incl. exact period boundaries and very late times",
"Tests evaluate a handful of schedules at a few points.",
["base_fee/fee_scheduler.rs","math/fee_math.rs","base_fee/mod.rs","utils/activation_handler.rs"],[("fee at period","base_fee/fee_scheduler.rs"),("power function","math/fee_math.rs")]))
L.append(p("C09","Anti-sniper rate limiter charges by trade size and cannot be split away",
"While a size-based limiter is active (buys only, within its window after activation) each further multiple of the reference amount pays a rate one increment higher up to the 99% cap, so the fee of a buy never decreases with its size, and outside the window, for sells, or at or below the reference amount the base rate applies. A buy to which an elevated rate applies is rejected unless it is the only instruction touching that pool with a swap in its transaction, so a large buy cannot be split within one transaction.",
["inputs","configurations","histories"],"all limiter settings, amounts around every multiple of the reference and the saturation index, all times around the window end, all positions of sibling/CPI swaps in a transaction",
"Tests check forward/inverse consistency for a few amounts; transaction introspection is never executed.",
["base_fee/fee_rate_limiter.rs",S,V],[("limiter fee formula and inverse","base_fee/fee_rate_limiter.rs"),("single-swap check","instructions/swap/ix_swap.rs")]))
L.append(p("C10","Dynamic fee tracks volatility with filter, decay and cap",
"When enabled, the dynamic rate before a trade is proportional (rounded up) to the square of the volatility accumulator, which after each trade becomes the carried-over reference plus the distance in price bins between the new price and the reference price, capped at the configured maximum. The references are refreshed before a trade only after the filter period, carry over a reduced volatility within the decay period and none after it; when disabled no volatility is recorded and nothing is charged.",
["histories","inputs","configurations"],"all dynamic-fee settings, all sequences of trades and waiting times incl. exactly the filter and decay boundaries",
"State depends on the full trade/time history; tests do not exercise sequences with time.",
["state/fee.rs",C,V],[("reference update","state/fee.rs"),("accumulator update","state/fee.rs"),("variable fee","state/config.rs")]))
L.append(p("C11","Discounted first swap only for the pool's own creation transaction, once",
"If and only if the configuration enables it, the very first swap of a pool is charged just the minimum base rate when it is made at top level in the same transaction that created this pool, without referral. Any other swap - later, in another transaction, for another pool, through another program, or with the option off - pays the regular rate.",
["histories","inputs","configurations"],"all placements of creation and swap instructions within transactions, all configurations",
"Depends on transaction introspection that no test executes.",
[S,V],[("creation-instruction detection","instructions/swap/ix_swap.rs"),("first swap flag","state/virtual_pool.rs")]))
L.append(p("C12","Trading stops exactly when the quote threshold is reached",
"A pool is complete exactly when its quote reserve has reached the migration threshold; from then on every swap fails and the reserves and price never change through trading, and until then the curve cannot be migrated, drained or surplus-claimed. The completing swap records its time, moves the pool to the locker-pending or migration-ready stage according to whether vesting is configured, and only succeeds if the base vault still covers the migration amount, unclaimed fees and vesting.",
["histories","inputs","configurations"],"all trade sequences ending one unit below, at, or above the threshold; all operations attempted before and after completion",
"Completion is a state transition observed only by the on-chain handlers.",
[S,V],[("completion check","state/virtual_pool.rs"),("completion transition","instructions/swap/ix_swap.rs")]))
L.append(p("C13","Pool stages advance once and in order; migration happens exactly once",
"A pool's stage only moves forward: trading, then (when vesting is configured) locker pending, then ready to migrate, then migrated. The locker is created only in its stage, migration to either venue only from the ready stage of a complete pool whose configuration names that venue, and each happens at most once; no other operation changes the stage.",
["histories","configurations"],"all orders of all operations, repeated and premature attempts included, both venues, with and without vesting",
"Ordering over whole histories; handlers are not unit tested.",
[V,"instructions/migration/create_locker.rs","instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs","instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs",S],[("migration progress","state/virtual_pool.rs")]))
L.append(p("C14","Partner and creator claim exactly their accrued trading fees, never twice",
"A trading-fee claim by the partner or the creator pays per token the smaller of the requested maximum and the accrued unclaimed fee, reduces exactly that accrual, and leaves all other entitlements untouched. Over any history the total paid never exceeds the total accrued, and a request of the maximum always empties the accrual.",
["histories","inputs"],"all interleavings of swaps and claims with all maxima (0, below, equal, above)",
"Claims are never executed by tests.",
[V,"instructions/partner/ix_claim_partner_trading_fee.rs","instructions/creator/ix_claim_creator_trading_fee.rs"],[("claim min(max, accrued)","state/virtual_pool.rs")]))
L.append(p("C15","Surplus is split 80/20 and paid once to each party",
"After completion the quote reserve above the migration threshold is surplus: 80% of it (rounded down) is shared between creator (the configured trading-fee percentage, rounded down) and partner (the rest), and the remaining part belongs to the protocol. Each of the three receives its share at most once, only after completion, and the three shares sum to the surplus.",
["histories","inputs","configurations"],"all surpluses incl. 0 and tiny ones, all percentages, all orders of the three withdrawals, also after migration",
"Multi-party one-shot withdrawals over orders; not unit tested.",
[V,"instructions/partner/ix_withdraw_partner_surplus.rs","instructions/creator/ix_withdraw_creator_surplus.rs","instructions/operator/ix_claim_protocol_fee.rs"],[("surplus split","state/virtual_pool.rs"),("withdraw flags","state/virtual_pool.rs")]))
L.append(p("C16","Migration fee is the configured share of the threshold, paid once per party",
"The configured percentage of the migration threshold (threshold minus the rounded-up remainder) is withheld as migration fee; the creator gets its configured share rounded down and the partner the rest. Each can withdraw only its own part, exactly once, only after completion and regardless of the order of the withdrawals, while the rest of the threshold goes into the migrated pool.",
["histories","inputs","configurations"],"all percentages and thresholds, all orders and repetitions of partner/creator withdrawals before and after migration",
"Bit-flag one-shot logic over orders; not executed by tests.",
[V,C,"instructions/migration/ix_withdraw_migration_fee.rs"],[("migration fee distribution","state/config.rs"),("withdraw bitmask","state/virtual_pool.rs")]))
L.append(p("C17","Protocol claims pay only protocol money, only to the treasury",
"A protocol fee claim pays at most the requested maximum per token out of the protocol's accrued trading fees first and then its migration fees - plus, once, after completion, the protocol's surplus share - and pays it to the treasury's associated token accounts only (or, for a zap, to the operator's own account of a non-restricted mint under the zap validation). It never touches partner, creator, reserve or migration funds, and no amount is paid twice.",
["histories","inputs"],"all interleavings of swaps, migration and protocol claims/zaps with all maxima and destinations",
"Claims are never executed by tests.",
[V,"instructions/operator/ix_claim_protocol_fee.rs","instructions/operator/ix_zap_protocol_fee.rs","utils/token.rs"],[("protocol claim","state/virtual_pool.rs"),("ATA validation","utils/token.rs")]))
L.append(p("C18","Pool creation fee is charged in full and split once between protocol and partner",
"Creating a pool charges exactly the configured creation fee in lamports on top of rent and keeps it with the pool; the protocol can claim 10% (rounded down) to the treasury once and the partner the rest once, in any order; a fee charged by an earlier program version goes to the treasury once. These claims never reduce the pool account below its rent-exempt minimum and pools created without a fee pay out nothing.",
["histories","inputs","configurations"],"all creation fees incl. 0 and bounds, all claim orders and repetitions",
"Lamport flows are never executed by tests.",
[V,C,"instructions/operator/ix_claim_protocol_pool_creation_fee.rs","instructions/partner/ix_claim_partner_pool_creation_fee.rs","utils/token.rs","instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs"],[("creation fee bits","state/virtual_pool.rs"),("lamport transfer with rent floor","utils/token.rs")]))
L.append(p("C19","Privileged actions need the right signer and the right accounts",
"Each privileged action succeeds only when signed by its party - the configured partner, the pool's current creator, an operator holding the specific permission, or an admin for operator management - and with the accounts that belong to this pool: its own configuration, vaults, mints, authority and recorded receivers. Replacing any of these by another party's or another pool's account makes the instruction fail without effect.",
["inputs","histories"],"all instructions x all account positions x substituted accounts of the same kind (another pool's, another config's, attacker's) and missing signatures, in every lifecycle stage",
"Access control sits in account constraints and macros that native unit tests never run.",
["access_control.rs","lib.rs","instructions/admin/auth.rs","state/operator.rs","instructions/"],[("access control attributes","lib.rs"),("account constraints","instructions/")]))
L.append(p("C20","A new pool mints exactly its supply and gives up or assigns mint authority",
"Creating a pool mints exactly the configured (fixed) or curve-derived initial supply, all of it into the pool's base vault, starts at the configured start price with an empty quote reserve, and links the pool to its configuration and creator. Afterwards the mint authority is nobody, the creator, or the partner exactly as configured, never the program, so that no later program action can create tokens; the token kind must match the configuration.",
["inputs","configurations"],"all accepted configurations, both token programs, all authority options",
"Pool creation is never executed by tests.",
["instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs","instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs","instructions/initialize_pool/process_create_token_metadata.rs",C],[("mint and authority hand-over","instructions/initialize_pool/"),("initial supply","state/config.rs")]))
L.append(p("C21","Fixed supply ends at its declared final size; leftover goes to its receiver once",
"After migration of a fixed-supply token unneeded base tokens are burned so that the supply is reduced by at most the declared difference between pre- and post-migration supply, and for a dynamic-supply token all unneeded base tokens are burned. The leftover of a fixed-supply token can be withdrawn only after migration, once, only to the configured receiver, and it leaves all unclaimed base fees in the vault.",
["histories","configurations"],"all fixed/dynamic configurations, unclaimed fees present or not, both venues, all orders of leftover withdrawal and claims",
"Burn and leftover logic is only on-chain.",
["instructions/migration/withdraw_leftover.rs",C,V,"instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs","instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"],[("burnable amount","state/config.rs"),("leftover amount","state/virtual_pool.rs")]))
L.append(p("C22","DAMM v1 migration deposits the promised amounts and shares LP as configured",
"Migration to the v1 venue deposits exactly the migration base amount and the threshold less migration fee, each less the protocol's 0.2% share (recorded for later claim), and only with a venue configuration whose parameters match the chosen fee option. The received LP tokens are divided between partner and creator, locked and unlocked, by the configured percentages with rounding dust to the creator; each part is locked or claimed exactly once, by or for its owner only.",
["histories","inputs","configurations"],"all splits, LP amounts, orders and repetitions of lock/claim, self-partnered pools (same partner and creator) included",
"Needs cross-program execution; no test does it.",
["instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs","instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs","instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs","instructions/migration/meteora_damm/meteora_damm_metadata_state.rs",C],[("LP distribution","state/config.rs"),("claim/lock flags","instructions/migration/meteora_damm/meteora_damm_metadata_state.rs")]))
L.append(p("C23","DAMM v2 migration opens at the curve price with correctly split locked positions",
"Migration to the v2 venue creates the pool at the migration price with the configured fee parameters, deposits no more quote than the threshold less migration fee and no more base than is free for migration (each less the protocol's 0.2% share, recorded for later claim), and splits liquidity between partner and creator positions by the configured percentages. The permanently locked and vested parts of each position are locked accordingly before ownership is handed to partner and creator; what cannot be deposited stays accounted to the protocol or is burned or left over.",
["histories","inputs","configurations"],"all distributions, vesting schedules, fee options and both liquidity modes",
"Needs cross-program execution; unit tests only cover the arithmetic of locking for a few schedules.",
["instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","migration_handler/concentrated_liquidity.rs","migration_handler/compounding_liquidity.rs",C,"utils/damm_v2_utils.rs"],[("liquidity split","state/config.rs"),("position handling","instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs")]))
L.append(p("C24","Only safe configurations are accepted, and derived values are computed from them",
"A configuration is accepted only when every parameter is in its documented range and consistent: fees within bounds and never below the minimum over the schedule, percentages adding to 100, at least 10% of liquidity still locked one day after migration, an increasing curve whose prices and liquidity are valid, a reachable threshold, vesting and supply figures that fit. The stored migration price, base amount on the curve, migration base amount and supply requirement are exactly those implied by the curve and threshold.",
["inputs","configurations"],"all parameter vectors, in particular each parameter at and one beyond each bound, and combinations",
"A space of ~60 parameters with interacting bounds; tests cover a few valid and invalid samples.",
["instructions/partner/ix_create_config.rs","params/fee_parameters.rs","params/liquidity_distribution.rs",C,"base_fee/fee_scheduler.rs","base_fee/fee_rate_limiter.rs"],[("parameter validation","instructions/partner/ix_create_config.rs"),("derived values","params/liquidity_distribution.rs")]))
L.append(p("C25","Locked vesting is escrowed in full under the configured schedule",
"When a vesting amount is configured, creating the locker moves exactly the total vesting amount (cliff plus all periods) from the base vault into an escrow for the creator with exactly the configured cliff, period length, period count and amounts, counted from the completion time, that nobody can cancel. It is possible exactly once, between completion and migration.",
["histories","configurations"],"all vesting configurations and all orders of locker creation with other operations",
"Needs cross-program execution.",
["instructions/migration/create_locker.rs","instructions/partner/ix_create_config.rs"],[("vesting parameters","instructions/migration/create_locker.rs")]))
L.append(p("C26","Creator role is transferable only when no creator claim can be misdirected",
"Only the current creator can hand the creator role to a different address; it is allowed while the pool still trades and again after migration - after a v1 migration only once all LP tokens of partner and creator have been locked and claimed - and never in between. After the transfer exactly the new creator holds all creator rights and nothing else about the pool changes.",
["histories"],"all orders of transfers with trading, completion, migration, lock and claim operations",
"Ordering and cross-account checks are not executed by tests.",
["instructions/creator/ix_transfer_pool_creator.rs",V],[("stage check","instructions/creator/ix_transfer_pool_creator.rs")]))
L.append(p("C27","Off-chain quotes equal what the on-chain swap then does",
"For any pool state, configuration, direction, amount, mode and moment, the quote library returns exactly the amounts, fees and next price that the corresponding swap executed at that moment would produce, and refuses when the swap would be refused for a completed pool, an exhausted curve or a zero amount. Differences are limited to the volatility refresh that a swap performs first.",
["inputs","histories","configurations"],"all pool states reached by trading, all amounts, modes, directions, times",
"Existing quote tests compare against fixed snapshots.",
["dynamic-bonding-curve-sdk/src/quote_exact_in.rs","dynamic-bonding-curve-sdk/src/quote_exact_out.rs","dynamic-bonding-curve-sdk/src/quote_partial_fill.rs",V],[("quote functions","dynamic-bonding-curve-sdk/src/")]))
L.append(p("C28","Events report exactly what happened",
"Every emitted event carries the true parties and amounts of its instruction: swap events the real input, output, fees, price and reserves after the trade, claim and withdrawal events the tokens actually transferred, creation and completion events the stored values. Each instruction that is documented to emit an event emits it exactly once on success, and none is emitted by a failed instruction.",
["histories","inputs"],"all instructions in all histories",
"No test observes events.",
["event.rs",S,"instructions/"],[("event emission","instructions/")]))
L.append(p("C29","Operators act only within admin-granted permissions",
"Only an admin can create or close an operator account, granting a non-empty set of the defined permissions to one address; an operator can use exactly the permissions granted and none after its account is closed. Operators, partners and traders cannot grant permissions.",
["histories","inputs"],"all permission values, all sequences of create/close/use by all parties",
"Never executed by tests (except a bit-mask helper).",
["access_control.rs","instructions/admin/ix_create_operator_account.rs","instructions/admin/ix_close_operator_account.rs","state/operator.rs","lib.rs"],[("permission bits","state/operator.rs"),("admin check","instructions/admin/auth.rs")]))
L.append(p("C30","Names and metadata records hold what their owner gave, once",
"The token's name, symbol and uri, set when its pool is created, are exactly those given by the pool's creator, and only the party the configuration names (creator, partner or nobody) can change them afterwards. A partner's and a pool's metadata record holds exactly the name, website and logo given, is tied to the partner, or to the pool, whose owner signed for it, exists at most once, and is never changed by any later instruction.",
["inputs","histories"],"texts of all shapes, both token programs, all orders of creation, creator transfer and record creation, by right and wrong people",
"Never executed by tests.",
["instructions/partner/ix_create_partner_metadata.rs","instructions/creator/ix_create_virtual_pool_metadata.rs","instructions/initialize_pool/process_create_token_metadata.rs","instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs","state/partner_metadata.rs","state/virtual_pool_metadata.rs"],[("stored fields","instructions/partner/ix_create_partner_metadata.rs")]))
L.append(p("C31","Clients, indexers and accounts of earlier releases keep working",
"Every instruction encoded as the released interfaces encode it (its discriminator, its arguments in their order and widths, its accounts in their order, with the signers and writable accounts a caller gives) is understood as that instruction with those arguments. Every account the program writes has the size, discriminator and field positions of the released account types (fields added later sit where there was padding; what is still padding stays zero), so that accounts written earlier and programs that read them byte for byte keep working. Every event carries the released discriminator and fields in the released order, and every error the number it was released with.",
["inputs","histories","configurations"],"all instructions with all arguments, all reachable contents of configuration, pool, v1 metadata, operator and metadata accounts, all events",
"The repository's compatibility test is a manual step against a validator; the unit tests decode only two pool fixtures with the structs under test, and a permutation of fields, arguments or accounts is consistent with itself.",
[V,C,"state/claim_fee_operator.rs","instructions/migration/meteora_damm/meteora_damm_metadata_state.rs","state/operator.rs","state/partner_metadata.rs","state/virtual_pool_metadata.rs","params/fee_parameters.rs","event.rs","error.rs","instructions/partner/ix_create_config.rs"],
[("account layouts","state/"),("argument layouts","instructions/partner/ix_create_config.rs"),("event layouts","event.rs")],None,["instruction data and account list","account bytes","event bytes","error numbers"]))
L.append(p("C32","A launch can be brought to its end from anywhere, and nothing is left behind",
"From every state that a launch under an accepted configuration can reach, whatever anyone did before: while the curve is open, a funded buyer can trade it to completion; once it is complete, the locker escrow (where creator vesting is configured) and then the migration to the configured venue succeed for anyone willing to pay for them, given a conforming venue configuration; and after migration each party can take everything it is owed, in any order. When all have done so, the base vault holds nothing, the migration authority holds no liquidity, the pool account holds no lamports above its rent, and the quote vault holds no more than rounding dust (worth less than a few base units of rounding) beyond what strangers donated.",
["histories","configurations","inputs"],"every reachable state of every accepted configuration, both venues, all orders of the remaining steps",
"Tests walk a few fixed paths to migration; that no accepted configuration and no history leads to a dead end (an instruction that can never succeed) or to stranded funds quantifies over all of them.",
["instructions/swap/","instructions/migration/","instructions/partner/","instructions/creator/","instructions/withdraw_leftover.rs","state/config.rs",V],
[("progress","instructions/migration/"),("curve completion","instructions/swap/ix_swap.rs"),("claims","instructions/partner/")]))
L.append(p("C33","Launches are independent, configurations never change, effects stay local",
"What is done on one launch never changes another launch: not its configuration, pool, vaults, mint, metadata or migration record, in either direction and whichever accounts a caller passes. A configuration never changes after its creation. Every instruction changes only what it is about: reserves, price and volatility change only by trades; each party's fees only by trades and that party's own claim; flags, stage, creator, operators, records, other people's token accounts, lamports, the mint and the migrated positions only by the instructions whose purpose they are.",
["histories","inputs"],"every instruction in every reachable state, accounts of another launch interleaved and substituted",
"Tests look at the fields an instruction is meant to change, on one launch at a time.",
[V,C,"instructions/"],[("account constraints","instructions/"),("state changes",V)]))
with open('/verif/properties.jsonl','w') as f:
    for x in L:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,s)
print(len(L))
