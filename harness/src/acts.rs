//! Instructions of the specification (see ../../spec/types.qnt) as instructions of the program, and the program's
//! events, calls and quotes as observations of the specification.
use crate::svm::{IxOut, Ix, CTX};
use crate::venues::pack_mint;
use crate::world::*;
use anchor_lang::prelude::*;
use anchor_lang::{AnchorSerialize, Discriminator, InstructionData, ToAccountMetas};
use anchor_lang::solana_program::instruction::AccountMeta;
use dynamic_bonding_curve as dbc;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn zap_id() -> Pubkey {
    Pubkey::new_from_array([7; 32])
}

fn n<T: TryFrom<u128>>(v: &Value) -> T {
    let s = v.as_str().unwrap_or_else(|| panic!("not a number: {}", v));
    let x: u128 = s.strip_prefix('#').unwrap().parse().unwrap_or_else(|_| panic!("bad number {}", s));
    T::try_from(x).unwrap_or_else(|_| panic!("out of range {}", s))
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn b(v: &Value) -> bool {
    v.as_bool().unwrap()
}

pub struct Built {
    pub names: Vec<&'static str>,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
    pub remaining: Vec<AccountMeta>,
    pub env: BTreeMap<String, u128>,
    pub foreign: Option<Pubkey>,
}

macro_rules! ix {
    ($t:ident { $($f:ident : $v:expr),* $(,)? }, $d:expr) => {{
        let a = dbc::accounts::$t { $($f: $v),* };
        Built { names: vec![$(stringify!($f)),*], metas: a.to_account_metas(None), data: $d.data(), remaining: vec![], env: BTreeMap::new(), foreign: None }
    }};
}

pub fn params(v: &Value) -> dbc::ConfigParameters {
    use dbc::params::fee_parameters::*;
    use dbc::params::liquidity_distribution::LiquidityDistributionParameters;
    let f = &v["base"];
    let d = &v["dyn"];
    let lv = &v["lv"];
    let ms = &v["mSched"];
    let vest = |x: &Value| dbc::LiquidityVestingInfoParams {
        vesting_percentage: n(&x["pct"]),
        bps_per_period: n(&x["bps"]),
        number_of_periods: n(&x["n"]),
        cliff_duration_from_migration_time: n(&x["cliff"]),
        frequency: n(&x["freq"]),
    };
    dbc::ConfigParameters {
        pool_fees: PoolFeeParameters {
            base_fee: BaseFeeParameters {
                cliff_fee_numerator: n(&f["cliff"]),
                first_factor: n(&f["f1"]),
                second_factor: n(&f["f2"]),
                third_factor: n(&f["f3"]),
                base_fee_mode: n(&f["bmode"]),
            },
            dynamic_fee: b(&v["hasDyn"]).then(|| DynamicFeeParameters {
                bin_step: n(&d["bin"]),
                bin_step_u128: n(&d["binQ"]),
                filter_period: n(&d["filter"]),
                decay_period: n(&d["decay"]),
                reduction_factor: n(&d["red"]),
                max_volatility_accumulator: n(&d["maxVol"]),
                variable_fee_control: n(&d["vfc"]),
            }),
        },
        collect_fee_mode: n(&v["collect"]),
        migration_option: n(&v["migOpt"]),
        activation_type: n(&v["actType"]),
        token_type: n(&v["tokenType"]),
        token_decimal: n(&v["decimals"]),
        partner_liquidity_percentage: n(&v["pLiq"]),
        partner_permanent_locked_liquidity_percentage: n(&v["pPerm"]),
        creator_liquidity_percentage: n(&v["cLiq"]),
        creator_permanent_locked_liquidity_percentage: n(&v["cPerm"]),
        migration_quote_threshold: n(&v["migQuote"]),
        sqrt_start_price: n(&v["start"]),
        locked_vesting: dbc::LockedVestingParams {
            amount_per_period: n(&lv["per"]),
            cliff_duration_from_migration_time: n(&lv["cliffDur"]),
            frequency: n(&lv["freq"]),
            number_of_period: n(&lv["n"]),
            cliff_unlock_amount: n(&lv["cliffAmt"]),
        },
        migration_fee_option: n(&v["migFeeOpt"]),
        token_supply: b(&v["hasSupply"]).then(|| dbc::TokenSupplyParams {
            pre_migration_token_supply: n(&v["preSupply"]),
            post_migration_token_supply: n(&v["postSupply"]),
        }),
        creator_trading_fee_percentage: n(&v["creatorPct"]),
        token_update_authority: n(&v["tokAuth"]),
        migration_fee: dbc::MigrationFee { fee_percentage: n(&v["migFeePct"]), creator_fee_percentage: n(&v["creatorMigPct"]) },
        migrated_pool_fee: dbc::MigratedPoolFee { collect_fee_mode: n(&v["mCollect"]), dynamic_fee: n(&v["mDyn"]), pool_fee_bps: n(&v["mFeeBps"]) },
        pool_creation_fee: n(&v["creationFee"]),
        partner_liquidity_vesting_info: vest(&v["pv"]),
        creator_liquidity_vesting_info: vest(&v["cv"]),
        migrated_pool_base_fee_mode: n(&v["mBaseMode"]),
        migrated_pool_market_cap_fee_scheduler_params: dbc::MigratedPoolMarketCapFeeSchedulerParams {
            number_of_period: n(&ms["n"]),
            sqrt_price_step_bps: n(&ms["step"]),
            scheduler_expiration_duration: n(&ms["expiry"]),
            reduction_factor: n(&ms["red"]),
        },
        enable_first_swap_with_min_fee: b(&v["firstMin"]),
        compounding_fee_bps: n(&v["mComp"]),
        padding: [0; 2],
        curve: v["curve"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| LiquidityDistributionParameters { sqrt_price: n(&p["p"]), liquidity: n(&p["l"]) })
            .collect(),
    }
}

fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}

/// the instruction of an action; `t` is "" for the launch under study and "t" for the unrelated one
pub fn build(w: &mut World, act: &Value, sv: &str) -> Built {
    let tag = s(&act["$v"]).to_string();
    let x = &act["x"];
    let (base_prog, quote_prog) = (w.base_prog, w.quote_prog);
    let sys = Pubkey::default();
    let (ea, authority) = (w.key("evauth"), w.key("authority"));
    let (cfg, pool, vb, vq, mb, mq) = (w.key("cfg"), w.key("pool"), w.key("vault.b"), w.key("vault.q"), w.key("mint.b"), w.key("mint.q"));
    let cranker = w.key("cranker");
    let by = if x["by"].is_string() { w.key(s(&x["by"])) } else { cranker };
    let byname = if x["by"].is_string() { s(&x["by"]).to_string() } else { "cranker".into() };
    let mut env = BTreeMap::new();
    let mut remaining = vec![];
    let mut out = match tag.as_str() {
        "CreateConfig" => ix!(
            CreateConfigCtx {
                config: cfg,
                fee_claimer: w.key(s(&x["partner"])),
                leftover_receiver: w.key(s(&x["leftoverTo"])),
                quote_mint: w.key(s(&x["quote"])),
                payer: cranker,
                system_program: sys,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::CreateConfig { config_parameters: params(x) }
        ),
        "InitPool" => {
            let [name, symbol, uri] = crate::world::text(n(&x["text"]));
            let p = dbc::InitializePoolParameters { name, symbol, uri };
            let creator = w.key(s(&x["creator"]));
            if b(&x["t22"]) {
                ix!(
                    InitializeVirtualPoolWithToken2022Ctx {
                        config: cfg,
                        pool_authority: authority,
                        creator: creator,
                        base_mint: mb,
                        quote_mint: mq,
                        pool: pool,
                        base_vault: vb,
                        quote_vault: vq,
                        payer: cranker,
                        token_quote_program: quote_prog,
                        token_program: anchor_spl::token_2022::ID,
                        system_program: sys,
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::InitializeVirtualPoolWithToken2022 { params: p }
                )
            } else {
                ix!(
                    InitializeVirtualPoolWithSplTokenCtx {
                        config: cfg,
                        pool_authority: authority,
                        creator: creator,
                        base_mint: mb,
                        quote_mint: mq,
                        pool: pool,
                        base_vault: vb,
                        quote_vault: vq,
                        mint_metadata: w.key("meta.b"),
                        metadata_program: mpl_token_metadata::ID,
                        payer: cranker,
                        token_quote_program: quote_prog,
                        token_program: anchor_spl::token::ID,
                        system_program: sys,
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::InitializeVirtualPoolWithSplToken { params: p }
                )
            }
        }
        "Swap" => {
            let who = s(&x["who"]).to_string();
            let (inp, outp) = if n::<u8>(&x["dir"]) == 1 { ("q", "b") } else { ("b", "q") };
            let referral = s(&x["referral"]);
            let a = (
                w.key(&format!("{}.{}", who, inp)),
                w.key(&format!("{}.{}", who, outp)),
                w.key(&who),
                if referral == "none" { None } else { Some(w.key(referral)) },
            );
            match sv {
                "real" => remaining.push(ro(w.key("ixs"))),
                "fake" => remaining.push(ro(w.key("fakeixs"))),
                _ => {}
            }
            let data = if b(&x["legacy"]) {
                dbc::instruction::Swap { params: dbc::SwapParameters { amount_in: n(&x["a0"]), minimum_amount_out: n(&x["a1"]) } }.data()
            } else {
                dbc::instruction::Swap2 { params: dbc::SwapParameters2 { amount_0: n(&x["a0"]), amount_1: n(&x["a1"]), swap_mode: n(&x["mode"]) } }.data()
            };
            let mut o = ix!(
                SwapCtx {
                    pool_authority: authority,
                    config: cfg,
                    pool: pool,
                    input_token_account: a.0,
                    output_token_account: a.1,
                    base_vault: vb,
                    quote_vault: vq,
                    base_mint: mb,
                    quote_mint: mq,
                    payer: a.2,
                    token_base_program: base_prog,
                    token_quote_program: quote_prog,
                    referral_token_account: a.3,
                    event_authority: ea,
                    program: DBC,
                },
                dbc::instruction::CloseOperatorAccount {}
            );
            o.data = data;
            o
        }
        "ClaimTrade" => {
            let (ta, tb) = (w.key(s(&x["baseTo"])), w.key(s(&x["quoteTo"])));
            if s(&x["side"]) == "partner" {
                ix!(
                    ClaimTradingFeesCtx {
                        pool_authority: authority,
                        config: cfg,
                        pool: pool,
                        token_a_account: ta,
                        token_b_account: tb,
                        base_vault: vb,
                        quote_vault: vq,
                        base_mint: mb,
                        quote_mint: mq,
                        fee_claimer: by,
                        token_base_program: base_prog,
                        token_quote_program: quote_prog,
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::ClaimTradingFee { max_amount_a: n(&x["a"]), max_amount_b: n(&x["b"]) }
                )
            } else {
                ix!(
                    ClaimCreatorTradingFeesCtx {
                        pool_authority: authority,
                        pool: pool,
                        token_a_account: ta,
                        token_b_account: tb,
                        base_vault: vb,
                        quote_vault: vq,
                        base_mint: mb,
                        quote_mint: mq,
                        creator: by,
                        token_base_program: base_prog,
                        token_quote_program: quote_prog,
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::ClaimCreatorTradingFee { max_base_amount: n(&x["a"]), max_quote_amount: n(&x["b"]) }
                )
            }
        }
        "ClaimProtocol" => ix!(
            ClaimProtocolFeesCtx {
                pool_authority: authority,
                config: cfg,
                pool: pool,
                base_vault: vb,
                quote_vault: vq,
                base_mint: mb,
                quote_mint: mq,
                token_base_account: w.key("treasury.b"),
                token_quote_account: w.key("treasury.q"),
                operator: w.key(&format!("op:{}", byname)),
                signer: by,
                token_base_program: base_prog,
                token_quote_program: quote_prog,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::ClaimProtocolFee { max_base_amount: n(&x["a"]), max_quote_amount: n(&x["b"]) }
        ),
        "Zap" => {
            let base = b(&x["isBase"]);
            env.insert("zap".into(), b(&x["accept"]) as u128);
            ix!(
                ZapProtocolFee {
                    pool_authority: authority,
                    config: cfg,
                    pool: pool,
                    token_vault: if base { vb } else { vq },
                    token_mint: if base { mb } else { mq },
                    receiver_token: w.key(s(&x["to"])),
                    operator: w.key(&format!("op:{}", byname)),
                    signer: by,
                    token_program: if base { base_prog } else { quote_prog },
                    sysvar_instructions: w.key("ixs"),
                },
                dbc::instruction::ZapProtocolFee { max_amount: n(&x["amount"]) }
            )
        }
        "Surplus" => {
            let to = w.key(s(&x["to"]));
            if s(&x["side"]) == "partner" {
                ix!(
                    PartnerWithdrawSurplusCtx {
                        pool_authority: authority,
                        config: cfg,
                        virtual_pool: pool,
                        token_quote_account: to,
                        quote_vault: vq,
                        quote_mint: mq,
                        fee_claimer: by,
                        token_quote_program: quote_prog,
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::PartnerWithdrawSurplus {}
                )
            } else {
                ix!(
                    CreatorWithdrawSurplusCtx {
                        pool_authority: authority,
                        config: cfg,
                        virtual_pool: pool,
                        token_quote_account: to,
                        quote_vault: vq,
                        quote_mint: mq,
                        creator: by,
                        token_quote_program: quote_prog,
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::CreatorWithdrawSurplus {}
                )
            }
        }
        "WithdrawMigFee" => ix!(
            WithdrawMigrationFeeCtx {
                pool_authority: authority,
                config: cfg,
                virtual_pool: pool,
                token_quote_account: w.key(s(&x["to"])),
                quote_vault: vq,
                quote_mint: mq,
                sender: by,
                token_quote_program: quote_prog,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::WithdrawMigrationFee { flag: n(&x["flag"]) }
        ),
        "ClaimCreationFee" => {
            if s(&x["side"]) == "partner" {
                ix!(
                    ClaimPartnerPoolCreationFeeCtx {
                        config: cfg,
                        pool: pool,
                        fee_claimer: by,
                        fee_receiver: w.key(s(&x["to"])),
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::ClaimPartnerPoolCreationFee {}
                )
            } else {
                ix!(
                    ClaimProtocolPoolCreationFeeCtx {
                        config: cfg,
                        pool: pool,
                        operator: w.key(&format!("op:{}", byname)),
                        signer: by,
                        treasury: w.key(s(&x["to"])),
                        event_authority: ea,
                        program: DBC,
                    },
                    dbc::instruction::ClaimProtocolPoolCreationFee {}
                )
            }
        }
        "CreateLocker" => {
            env.insert("evil".into(), n(&x["evil"]));
            let c = w.pool("pool").map_or(sys, |p| p.creator);
            ix!(
                CreateLockerCtx {
                    virtual_pool: pool,
                    config: cfg,
                    pool_authority: authority,
                    base_vault: vb,
                    base_mint: mb,
                    base: w.key("lbase"),
                    creator: c,
                    escrow: w.key("lescrow"),
                    escrow_token: w.key("locker.b"),
                    payer: by,
                    token_program: base_prog,
                    locker_program: locker::ID,
                    locker_event_authority: w.key("locker.ev"),
                    system_program: sys,
                },
                dbc::instruction::CreateLocker {}
            )
        }
        "V1Meta" => ix!(
            MigrationMeteoraDammCreateMetadataCtx {
                virtual_pool: pool,
                config: cfg,
                migration_metadata: w.key("v1meta"),
                payer: by,
                system_program: sys,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::MigrationMeteoraDammCreateMetadata {}
        ),
        "V1Migrate" => {
            env.insert("evil".into(), n(&x["evil"]));
            env.insert("lp".into(), n(&x["lp"]));
            let v = &x["venue"];
            write_v1_config(w, n(&v["num"]), n(&v["den"]), n(&v["dur"]), n(&v["partnerFee"]), s(&v["vaultCfg"]), s(&v["auth"]));
            ix!(
                MigrateMeteoraDammCtx {
                    virtual_pool: pool,
                    migration_metadata: w.key("v1meta"),
                    config: cfg,
                    pool_authority: authority,
                    pool: w.key("v1.pool"),
                    damm_config: w.key("v1.cfg"),
                    lp_mint: w.key("v1.lp"),
                    token_a_mint: mb,
                    token_b_mint: mq,
                    a_vault: w.key("v1.avault"),
                    b_vault: w.key("v1.bvault"),
                    a_token_vault: w.key("v1.b"),
                    b_token_vault: w.key("v1.q"),
                    a_vault_lp_mint: w.key("v1.avlm"),
                    b_vault_lp_mint: w.key("v1.bvlm"),
                    a_vault_lp: w.key("v1.avl"),
                    b_vault_lp: w.key("v1.bvl"),
                    base_vault: vb,
                    quote_vault: vq,
                    virtual_pool_lp: w.key("authority.lp"),
                    protocol_token_a_fee: w.key("v1.pfa"),
                    protocol_token_b_fee: w.key("v1.pfb"),
                    payer: by,
                    rent: w.key("rent"),
                    mint_metadata: w.key("v1.lpmeta"),
                    metadata_program: mpl_token_metadata::ID,
                    amm_program: dynamic_amm::ID,
                    vault_program: w.key("v1.vaultprog"),
                    token_program: anchor_spl::token::ID,
                    associated_token_program: anchor_spl::associated_token::ID,
                    system_program: sys,
                },
                dbc::instruction::MigrateMeteoraDamm {}
            )
        }
        "V1LockLp" => {
            let owner = s(&x["owner"]).to_string();
            env.insert("evil".into(), n(&x["evil"]));
            ix!(
                MigrateMeteoraDammLockLpTokenCtx {
                    virtual_pool: pool,
                    migration_metadata: w.key("v1meta"),
                    pool_authority: authority,
                    pool: w.key("v1.pool"),
                    lp_mint: w.key("v1.lp"),
                    lock_escrow: w.key(&format!("esc:{}", owner)),
                    owner: w.key(&owner),
                    source_tokens: w.key("authority.lp"),
                    escrow_vault: w.key(&format!("esc:{}.lp", owner)),
                    amm_program: dynamic_amm::ID,
                    a_vault: w.key("v1.avault"),
                    b_vault: w.key("v1.bvault"),
                    a_vault_lp: w.key("v1.avl"),
                    b_vault_lp: w.key("v1.bvl"),
                    a_vault_lp_mint: w.key("v1.avlm"),
                    b_vault_lp_mint: w.key("v1.bvlm"),
                    token_program: anchor_spl::token::ID,
                },
                dbc::instruction::MigrateMeteoraDammLockLpToken {}
            )
        }
        "V1ClaimLp" => {
            let owner = s(&x["owner"]).to_string();
            ix!(
                MigrateMeteoraDammClaimLpTokenCtx {
                    virtual_pool: pool,
                    migration_metadata: w.key("v1meta"),
                    pool_authority: authority,
                    lp_mint: w.key("v1.lp"),
                    source_token: w.key("authority.lp"),
                    destination_token: w.key(&format!("{}.lp", owner)),
                    owner: w.key(&owner),
                    sender: by,
                    token_program: anchor_spl::token::ID,
                },
                dbc::instruction::MigrateMeteoraDammClaimLpToken {}
            )
        }
        "V2Meta" => ix!(
            MigrationDammV2CreateMetadataCtx {
                virtual_pool: pool,
                config: cfg,
                migration_metadata: w.key("v2meta"),
                payer: by,
                system_program: sys,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::MigrationDammV2CreateMetadata {}
        ),
        "V2Migrate" => {
            env.insert("evil".into(), n(&x["evil"]));
            let v = &x["venue"];
            let c = V2Cfg {
                num: n(&v["feeNum"]),
                mode: n(&v["mode"]),
                n: n(&v["n"]),
                freq: n(&v["freq"]),
                red: n(&v["red"]),
                min: n(&v["min"]),
                max: n(&v["max"]),
                act: n(&v["act"]),
            };
            write_v2_config(w, &c, s(&v["vaultCfg"]), s(&v["auth"]));
            remaining.push(ro(w.key("v2.cfg")));
            let second = b(&x["second"]);
            let (m2, t2, p2) = (w.key("nft2"), w.key("nft2.t"), w.key("pos2"));
            ix!(
                MigrateDammV2Ctx {
                    virtual_pool: pool,
                    migration_metadata: w.key("v2meta"),
                    config: cfg,
                    pool_authority: authority,
                    pool: w.key("v2.pool"),
                    first_position_nft_mint: w.key("nft1"),
                    first_position_nft_account: w.key("nft1.t"),
                    first_position: w.key("pos1"),
                    second_position_nft_mint: second.then_some(m2),
                    second_position_nft_account: second.then_some(t2),
                    second_position: second.then_some(p2),
                    damm_pool_authority: w.key("v2.auth"),
                    amm_program: damm_v2::ID,
                    base_mint: mb,
                    quote_mint: mq,
                    token_a_vault: w.key("v2.b"),
                    token_b_vault: w.key("v2.q"),
                    base_vault: vb,
                    quote_vault: vq,
                    payer: by,
                    token_base_program: base_prog,
                    token_quote_program: quote_prog,
                    token_2022_program: anchor_spl::token_2022::ID,
                    damm_event_authority: w.key("v2.ev"),
                    system_program: sys,
                },
                dbc::instruction::MigrationDammV2 {}
            )
        }
        "Leftover" => {
            let c = w.config("cfg").map_or(sys, |c| c.leftover_receiver);
            let name = w.nm(&c);
            ix!(
                WithdrawLeftoverCtx {
                    pool_authority: authority,
                    config: cfg,
                    virtual_pool: pool,
                    token_base_account: w.key(&format!("{}.b", name)),
                    base_vault: vb,
                    base_mint: mb,
                    leftover_receiver: c,
                    token_base_program: base_prog,
                    event_authority: ea,
                    program: DBC,
                },
                dbc::instruction::WithdrawLeftover {}
            )
        }
        "TransferCreator" => {
            if s(&x["meta"]) != "none" {
                remaining.push(ro(w.key(s(&x["meta"]))));
            }
            ix!(
                TransferPoolCreatorCtx {
                    virtual_pool: pool,
                    config: cfg,
                    creator: by,
                    new_creator: w.key(s(&x["to"])),
                    event_authority: ea,
                    program: DBC,
                },
                dbc::instruction::TransferPoolCreator {}
            )
        }
        "CreateOperator" => {
            let who = s(&x["who"]).to_string();
            ix!(
                CreateOperatorAccountCtx {
                    operator: w.key(&format!("op:{}", who)),
                    whitelisted_address: w.key(&who),
                    signer: by,
                    payer: cranker,
                    system_program: sys,
                    event_authority: ea,
                    program: DBC,
                },
                dbc::instruction::CreateOperatorAccount { permission: n(&x["perm"]) }
            )
        }
        "CloseOperator" => ix!(
            CloseOperatorAccountCtx { operator: w.key(&format!("op:{}", s(&x["who"]))), signer: by, rent_receiver: cranker },
            dbc::instruction::CloseOperatorAccount {}
        ),
        "CloseLegacy" => ix!(
            CloseClaimProtocolFeeOperatorCtx {
                claim_fee_operator: w.key("legacyop"),
                rent_receiver: cranker,
                signer: by,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::CloseClaimProtocolFeeOperator {}
        ),
        "PartnerMeta" => {
            let who = s(&x["who"]).to_string();
            let [name, website, logo] = crate::world::text(n(&x["text"]));
            ix!(
                CreatePartnerMetadataCtx {
                    partner_metadata: w.key(&format!("pmeta:{}", who)),
                    payer: cranker,
                    fee_claimer: by,
                    system_program: sys,
                    event_authority: ea,
                    program: DBC,
                },
                dbc::instruction::CreatePartnerMetadata {
                    metadata: dbc::CreatePartnerMetadataParameters { padding: [0; 96], name, website, logo }
                }
            )
        }
        "PoolMeta" => {
            let [name, website, logo] = crate::world::text(n(&x["text"]));
            ix!(
            CreateVirtualPoolMetadataCtx {
                virtual_pool: pool,
                virtual_pool_metadata: w.key("plmeta"),
                creator: by,
                payer: cranker,
                system_program: sys,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::CreateVirtualPoolMetadata {
                metadata: dbc::CreateVirtualPoolMetadataParameters { padding: [0; 96], name, website, logo }
            }
        )
        }
        "TwinSwap" => ix!(
            SwapCtx {
                pool_authority: authority,
                config: w.key("tcfg"),
                pool: w.key("tpool"),
                input_token_account: w.key("eve.q"),
                output_token_account: w.key("eve.tb"),
                base_vault: w.key("tvault.b"),
                quote_vault: w.key("tvault.q"),
                base_mint: w.key("tmint.b"),
                quote_mint: mq,
                payer: w.key("eve"),
                token_base_program: anchor_spl::token::ID,
                token_quote_program: quote_prog,
                referral_token_account: None,
                event_authority: ea,
                program: DBC,
            },
            dbc::instruction::Swap2 { params: dbc::SwapParameters2 { amount_0: n(&x["a"]), amount_1: 0, swap_mode: 1 } }
        ),
        "OtherInit" => {
            w.others += 1;
            let o = format!("o{}", w.others);
            let (bm, tc) = (w.key(&format!("{}mint.b", o)), w.key("tcfg"));
            let p = pda(&[b"pool", tc.as_ref(), bm.max(mq).as_ref(), bm.min(mq).as_ref()], &DBC);
            if b(&x["extra"]) {
                remaining.push(ro(pool));
            }
            ix!(
                InitializeVirtualPoolWithSplTokenCtx {
                    config: tc,
                    pool_authority: authority,
                    creator: w.key("eve"),
                    base_mint: bm,
                    quote_mint: mq,
                    pool: p,
                    base_vault: pda(&[b"token_vault", bm.as_ref(), p.as_ref()], &DBC),
                    quote_vault: pda(&[b"token_vault", mq.as_ref(), p.as_ref()], &DBC),
                    mint_metadata: pda(&[b"metadata", mpl_token_metadata::ID.as_ref(), bm.as_ref()], &mpl_token_metadata::ID),
                    metadata_program: mpl_token_metadata::ID,
                    payer: cranker,
                    token_quote_program: quote_prog,
                    token_program: anchor_spl::token::ID,
                    system_program: sys,
                    event_authority: ea,
                    program: DBC,
                },
                dbc::instruction::InitializeVirtualPoolWithSplToken {
                    params: dbc::InitializePoolParameters { name: "other".into(), symbol: "O".into(), uri: "u".into() }
                }
            )
        }
        "Foreign" => {
            let k = w.key("foreignprog");
            let (mut m, mut data) = (vec![ro(w.key("eve"))], vec![1, 2, 3]);
            let (place, looks): (usize, &[u8]) = match n::<u8>(&x["mimic"]) {
                0 => (1, &[]),
                1 if w.t22 => (5, dbc::instruction::InitializeVirtualPoolWithToken2022::DISCRIMINATOR),
                1 => (5, dbc::instruction::InitializeVirtualPoolWithSplToken::DISCRIMINATOR),
                _ => (2, dbc::instruction::Swap2::DISCRIMINATOR),
            };
            if !looks.is_empty() {
                data = looks.to_vec();
                data.extend([0; 24]);
            }
            m.resize(place, ro(w.key("eve")));
            m.push(if b(&x["touches"]) { AccountMeta::new(pool, false) } else { ro(w.key("eve")) });
            Built { names: vec![], metas: m, data, remaining: vec![], env: BTreeMap::new(), foreign: Some(k) }
        }
        t => panic!("unknown action {}", t),
    };
    out.env = env;
    out.remaining = remaining;
    out
}

pub fn finish(w: &mut World, built: Built, ix: &Value) -> (Ix, BTreeMap<String, u128>) {
    let mut metas = built.metas;
    for sub in ix["sub"].as_array().unwrap() {
        let (slot, repl) = (s(&sub["slot"]), s(&sub["repl"]));
        let i = built.names.iter().position(|x| *x == slot).unwrap_or_else(|| panic!("no account {} in {}", slot, ix["act"]["$v"]));
        if repl == "!nosign" {
            metas[i].is_signer = false;
        } else {
            metas[i].pubkey = w.key(repl);
        }
    }
    metas.extend(built.remaining);
    (Ix { metas, data: built.data, foreign: built.foreign, via: n(&ix["via"]), join: b(&ix["join"]) }, built.env)
}

fn no_quote() -> Value {
    json!({"ok": false, "incl": int(0), "excl": int(0), "left": int(0), "out": int(0), "price": int(0), "trade": int(0), "prot": int(0), "ref": int(0)})
}
pub fn no_quotes() -> Value {
    json!({"has": false, "later": no_quote(), "first": no_quote()})
}

/// what the quote library answers for a swap in the current state, for a first swap at minimum fee and otherwise
pub fn quotes(w: &World, act: &Value) -> Value {
    let none = no_quote();
    let x = &act["x"];
    let (Some(p), Some(c)) = (w.pool("pool"), w.config("cfg")) else { return no_quotes() };
    let sell = n::<u8>(&x["dir"]) == 0;
    let has_ref = s(&x["referral"]) != "none";
    let mode = if b(&x["legacy"]) { 0 } else { n::<u8>(&x["mode"]) };
    let (ts, slot, a): (u64, u64, u64) = (w.bank.ts as u64, w.bank.slot, n(&x["a0"]));
    let ask = |first: bool| {
        use dynamic_bonding_curve_sdk as sdk;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
            0 => sdk::quote_exact_in::quote_exact_in(&p, &c, sell, ts, slot, a, has_ref, first),
            1 => sdk::quote_partial_fill::quote_partial_fill(&p, &c, sell, ts, slot, a, has_ref, first),
            _ => sdk::quote_exact_out::quote_exact_out(&p, &c, sell, ts, slot, a, first),
        }));
        match r {
            Ok(Ok(r)) => json!({"ok": true, "incl": int(r.included_fee_input_amount), "excl": int(r.excluded_fee_input_amount), "left": int(r.amount_left),
                "out": int(r.output_amount), "price": int(r.next_sqrt_price), "trade": int(r.trading_fee), "prot": int(r.protocol_fee), "ref": int(r.referral_fee)}),
            _ => none.clone(),
        }
    };
    json!({"has": mode <= 2, "later": ask(false), "first": ask(true)})
}

fn obs(name: &str, ns: Vec<(&str, i128)>, ss: Vec<(&str, String)>) -> Value {
    json!({
        "name": name,
        "n": map(ns.into_iter().map(|(k, v)| (k.to_string(), int(v))).collect()),
        "s": map(ss.into_iter().map(|(k, v)| (k.to_string(), Value::String(v))).collect()),
    })
}

#[allow(deprecated)]
fn event(w: &World, d: &[u8], want: &Option<dbc::ConfigParameters>) -> Value {
    let k = |x: &Pubkey| w.nm(x);
    macro_rules! try_ev {
        ($t:ident, $e:ident, $body:expr) => {
            if d.len() >= 8 && d[..8] == *dbc::$t::DISCRIMINATOR {
                return match dbc::$t::deserialize(&mut &d[8..]) {
                    Ok($e) => $body,
                    Err(_) => obs(concat!("bad ", stringify!($t)), vec![], vec![]),
                };
            }
        };
    }
    try_ev!(EvtSwap, e, obs(
        "swap",
        vec![
            ("dir", e.trade_direction as i128), ("hasRef", e.has_referral as i128), ("a0", e.params.amount_in as i128), ("a1", e.params.minimum_amount_out as i128),
            ("in", e.swap_result.actual_input_amount as i128), ("out", e.swap_result.output_amount as i128), ("price", e.swap_result.next_sqrt_price as i128),
            ("trade", e.swap_result.trading_fee as i128), ("prot", e.swap_result.protocol_fee as i128), ("ref", e.swap_result.referral_fee as i128),
            ("amountIn", e.amount_in as i128), ("ts", e.current_timestamp as i128),
        ],
        vec![("pool", k(&e.pool)), ("cfg", k(&e.config))]
    ));
    try_ev!(EvtSwap2, e, obs(
        "swap2",
        vec![
            ("dir", e.trade_direction as i128), ("hasRef", e.has_referral as i128), ("a0", e.swap_parameters.amount_0 as i128), ("a1", e.swap_parameters.amount_1 as i128),
            ("mode", e.swap_parameters.swap_mode as i128), ("incl", e.swap_result.included_fee_input_amount as i128),
            ("excl", e.swap_result.excluded_fee_input_amount as i128), ("left", e.swap_result.amount_left as i128), ("out", e.swap_result.output_amount as i128),
            ("price", e.swap_result.next_sqrt_price as i128), ("trade", e.swap_result.trading_fee as i128), ("prot", e.swap_result.protocol_fee as i128),
            ("ref", e.swap_result.referral_fee as i128), ("quoteRes", e.quote_reserve_amount as i128), ("threshold", e.migration_threshold as i128),
            ("ts", e.current_timestamp as i128),
        ],
        vec![("pool", k(&e.pool)), ("cfg", k(&e.config))]
    ));
    try_ev!(EvtCurveComplete, e, obs("complete", vec![("baseRes", e.base_reserve as i128), ("quoteRes", e.quote_reserve as i128)], vec![("pool", k(&e.pool)), ("cfg", k(&e.config))]));
    try_ev!(EvtPartnerMetadata, e, obs("partnerMeta", vec![], vec![("meta", k(&e.partner_metadata)), ("partner", k(&e.fee_claimer))]));
    try_ev!(EvtVirtualPoolMetadata, e, obs("poolMeta", vec![], vec![("meta", k(&e.virtual_pool_metadata)), ("pool", k(&e.virtual_pool))]));
    try_ev!(EvtCreateConfig, e, {
        let same = want.as_ref().map_or(false, |p| {
            p.pool_fees.try_to_vec().unwrap() == e.pool_fees.try_to_vec().unwrap()
                && p.locked_vesting.try_to_vec().unwrap() == e.locked_vesting.try_to_vec().unwrap()
                && p.curve.try_to_vec().unwrap() == e.curve.try_to_vec().unwrap()
                && (p.collect_fee_mode, p.migration_option, p.activation_type, p.token_decimal, p.token_type, p.migration_fee_option)
                    == (e.collect_fee_mode, e.migration_option, e.activation_type, e.token_decimal, e.token_type, e.migration_fee_option)
                && (p.partner_permanent_locked_liquidity_percentage, p.partner_liquidity_percentage) == (e.partner_permanent_locked_liquidity_percentage, e.partner_liquidity_percentage)
                && (p.creator_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage) == (e.creator_permanent_locked_liquidity_percentage, e.creator_liquidity_percentage)
                && p.migration_quote_threshold == e.migration_quote_threshold
                && p.sqrt_start_price == e.sqrt_start_price
        });
        obs(
            "config",
            vec![("same", same as i128), ("swapBase", e.swap_base_amount as i128), ("migBase", e.migration_base_amount as i128), ("fixedSupply", e.fixed_token_supply_flag as i128),
                ("preSupply", e.pre_migration_token_supply as i128), ("postSupply", e.post_migration_token_supply as i128)],
            vec![("cfg", k(&e.config)), ("quote", k(&e.quote_mint)), ("partner", k(&e.fee_claimer)), ("leftoverTo", k(&e.owner))],
        )
    });
    try_ev!(EvtCreateConfigV2, e, {
        let same = want.as_ref().map_or(false, |p| p.try_to_vec().unwrap() == e.config_parameters.try_to_vec().unwrap());
        obs("config2", vec![("same", same as i128)], vec![("cfg", k(&e.config)), ("quote", k(&e.quote_mint)), ("partner", k(&e.fee_claimer)), ("leftoverTo", k(&e.leftover_receiver))])
    });
    try_ev!(EvtCloseClaimFeeOperator, e, obs("closeLegacy", vec![], vec![("account", k(&e.claim_fee_operator)), ("operator", k(&e.operator))]));
    try_ev!(EvtInitializePool, e, obs("init", vec![("kind", e.pool_type as i128), ("act", e.activation_point as i128)], vec![("pool", k(&e.pool)), ("cfg", k(&e.config)), ("creator", k(&e.creator)), ("mint", k(&e.base_mint))]));
    try_ev!(EvtClaimProtocolFee, e, obs("claimProtocol", vec![("base", e.token_base_amount as i128), ("quote", e.token_quote_amount as i128)], vec![("pool", k(&e.pool))]));
    try_ev!(EvtClaimTradingFee, e, obs("claimPartner", vec![("base", e.token_base_amount as i128), ("quote", e.token_quote_amount as i128)], vec![("pool", k(&e.pool))]));
    try_ev!(EvtClaimCreatorTradingFee, e, obs("claimCreator", vec![("base", e.token_base_amount as i128), ("quote", e.token_quote_amount as i128)], vec![("pool", k(&e.pool))]));
    try_ev!(EvtCreateMeteoraMigrationMetadata, e, obs("v1meta", vec![], vec![("pool", k(&e.virtual_pool))]));
    try_ev!(EvtPartnerWithdrawSurplus, e, obs("partnerSurplus", vec![("amount", e.surplus_amount as i128)], vec![("pool", k(&e.pool))]));
    try_ev!(EvtCreatorWithdrawSurplus, e, obs("creatorSurplus", vec![("amount", e.surplus_amount as i128)], vec![("pool", k(&e.pool))]));
    try_ev!(EvtWithdrawLeftover, e, obs("leftover", vec![("amount", e.leftover_amount as i128)], vec![("pool", k(&e.pool)), ("to", k(&e.leftover_receiver))]));
    try_ev!(EvtUpdatePoolCreator, e, obs("newCreator", vec![], vec![("pool", k(&e.pool)), ("from", k(&e.creator)), ("to", k(&e.new_creator))]));
    try_ev!(EvtWithdrawMigrationFee, e, obs("migFee", vec![("amount", e.fee as i128), ("flag", e.flag as i128)], vec![("pool", k(&e.pool))]));
    try_ev!(EvtClaimPoolCreationFee, e, obs("creationFeeProtocol", vec![("amount", e.creation_fee as i128)], vec![("pool", k(&e.pool)), ("to", k(&e.receiver))]));
    try_ev!(EvtPartnerClaimPoolCreationFee, e, obs("creationFeePartner", vec![("amount", e.creation_fee as i128)], vec![("pool", k(&e.pool)), ("partner", k(&e.partner)), ("to", k(&e.fee_receiver))]));
    obs("unknown event", vec![], vec![])
}

/// the observation of one executed instruction
pub fn result(w: &World, out: &IxOut, act: &Value) -> Value {
    let want = if act["$v"] == "CreateConfig" { Some(params(&act["x"])) } else { None };
    let events: Vec<Value> = out.events.iter().map(|e| event(w, e, &want)).collect();
    let mut calls: Vec<Value> = out
        .calls
        .iter()
        .map(|c| {
            obs(
                &c.name,
                c.ints.iter().map(|(k, v)| (k.as_str(), *v as i128)).collect(),
                c.keys.iter().map(|(k, v)| (k.as_str(), w.nm(v))).collect(),
            )
        })
        .collect();
    for a in protocol_zap::ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())) {
        if out.err.is_none() {
            let pk = |x: [u8; 32]| w.nm(&Pubkey::new_from_array(x));
            let bal = if a.receiver_data.len() >= 72 { u64::from_le_bytes(a.receiver_data[64..72].try_into().unwrap()) } else { 0 };
            calls.push(obs(
                "zap",
                vec![("amount", a.amount as i128), ("balance", bal as i128), ("sysvar", (a.sysvar.len() > 2) as i128)],
                vec![("program", pk(a.program)), ("receiver", pk(a.receiver)), ("treasury", pk(a.treasury)), ("paired", pk(a.paired))],
            ));
        }
    }
    let touched: Vec<String> = out.touched.iter().map(|k| w.nm(k)).collect();
    json!({"ok": out.err.is_none(), "err": out.err.clone().unwrap_or_default(), "events": events, "calls": calls, "touched": json!({"$set": touched})})
}

/// creates the unrelated launch, by the program itself, and trades on it a little
pub fn twin(w: &mut World) {
    let mut seed: Value = serde_json::from_str(include_str!("twin.json")).unwrap();
    // the older venue takes only quote tokens of the older token program
    let old = w.quote_prog == anchor_spl::token::ID;
    seed["migOpt"] = json!(if old { "#0" } else { "#1" });
    let saved: Vec<(String, Pubkey)> = ["cfg", "pool", "vault.b", "vault.q", "mint.b", "meta.b", "v1meta"].iter().map(|n| (n.to_string(), w.key(n))).collect();
    for n in ["cfg", "pool", "vault.b", "vault.q", "mint.b", "meta.b", "v1meta"] {
        let k = w.key(&format!("t{}", n));
        w.names.insert(n.to_string(), k);
    }
    let (bp, t22) = (w.base_prog, w.t22);
    w.base_prog = anchor_spl::token::ID;
    w.t22 = false;
    let mut acts = vec![json!({"$v": "CreateConfig", "x": seed}), json!({"$v": "InitPool", "x": {"t22": false, "creator": "eve", "text": "#0"}})];
    acts.push(json!({"$v": "TwinSwap", "x": {"a": "#1000000000"}}));
    acts.push(json!({"$v": "TwinSwap", "x": {"a": "#3000000"}}));
    if old {
        acts.push(json!({"$v": "V1Meta", "x": {"by": "eve"}}));
    }
    for a in acts {
        let built = build(w, &a, "no");
        let (ix, env) = finish(w, built, &json!({"sub": [], "via": "#0", "join": false, "act": a}));
        let r = w.bank.exec(&[ix], 0, &env);
        if let Some(e) = r.err {
            if std::env::var("DBC_DEBUG").is_ok() {
                eprintln!("twin {}: {} {:?}", a["$v"], e, r.logs);
            }
            break;
        }
        w.fund("eve.tb", "tmint.b", "eve", 0);
    }
    for (n, k) in saved {
        w.names.insert(n, k);
    }
    w.base_prog = bp;
    w.t22 = t22;
    let _ = pack_mint;
    CTX.with(|c| *c.borrow_mut() = Default::default());
}

/// instructions, as opposed to what merely happens
pub fn is_call(tag: &str) -> bool {
    !matches!(tag, "Warp" | "Donate" | "Overshoot" | "Inherit")
}

fn hex(d: &[u8]) -> Value {
    json!({"$bytes": d.iter().map(|b| format!("{:02x}", b)).collect::<String>()})
}

/// the bytes of an instruction and its accounts, of its events, and of every account of the program afterwards
pub fn wire(w: &World, ix: Option<&Ix>, out: &IxOut) -> Value {
    let accts: Vec<Value> = ix.map_or(vec![], |i| i.metas.iter().map(|m| json!({"k": w.nm(&m.pubkey), "s": m.is_signer, "w": m.is_writable})).collect());
    let mut recs = BTreeMap::new();
    let mut keys = BTreeMap::new();
    for (n, k) in &w.names {
        keys.insert(n.clone(), Value::String(format!("#0x{}", k.to_bytes().iter().rev().map(|b| format!("{:02x}", b)).collect::<String>())));
        if let Some(a) = w.bank.accts.get(k) {
            if a.owner == DBC {
                recs.insert(n.clone(), hex(&a.data));
            }
        }
    }
    let texts: Vec<Value> = (0..crate::world::TEXTS).map(|i| Value::Array(crate::world::text(i).iter().map(|t| hex(t.as_bytes())).collect())).collect();
    // the error an instruction ended with: its name as the program logs it, and the number the caller gets
    let number = out.err.as_ref().and_then(|e| e.strip_prefix('c')).and_then(|c| c.parse::<i128>().ok()).unwrap_or(-1);
    let name = out.logs.iter().rev().find_map(|l| l.split("Error Code: ").nth(1)).and_then(|l| l.split('.').next()).unwrap_or("").to_string();
    json!({
        "on": true, "err": {"name": if number < 0 { String::new() } else { name }, "n": int(number)}, "data": hex(ix.map_or(&[], |i| &i.data)), "accts": accts, "events": out.events.iter().map(|e| hex(e)).collect::<Vec<_>>(),
        "recs": map(recs), "key": map(keys), "texts": texts,
    })
}
