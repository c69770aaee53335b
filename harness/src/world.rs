//! The accounts around one launch: names for keys, the starting state, and the projection of the bank's content to
//! the state of the specification (see ../../spec/types.qnt).
use crate::svm::{rent, Acct, Bank};
use crate::venues::{pack_account, pack_mint, pos_read};
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{hash::hash, program_option::COption, program_pack::Pack, system_program};
use anchor_lang::{AccountDeserialize, AccountSerialize, Discriminator};
use anchor_spl::token::spl_token;
use anchor_spl::token_2022::spl_token_2022;
use dynamic_bonding_curve::MeteoraDammMigrationMetadata;
use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

pub const WALLETS: [&str; 14] = [
    "partner", "creator", "heir", "leftover", "trader0", "trader1", "referrer", "admin0", "admin1", "op0", "op1", "eve", "cranker", "treasury",
];
pub const DBC: Pubkey = dynamic_bonding_curve::ID;

pub fn aggregator() -> Pubkey {
    derived("aggregator", 0)
}

fn derived(name: &str, seed: u64) -> Pubkey {
    Pubkey::new_from_array(hash(format!("{}/{}", seed, name).as_bytes()).to_bytes())
}

pub fn pda(seeds: &[&[u8]], pid: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, pid).0
}

pub fn int(v: impl std::fmt::Display) -> Value {
    Value::String(format!("#{}", v))
}
pub fn map(m: BTreeMap<String, Value>) -> Value {
    json!({"$map": m.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()})
}

pub struct World {
    pub bank: Bank,
    pub names: HashMap<String, Pubkey>,
    pub rev: HashMap<Pubkey, String>,
    pub seed: u64,
    pub t22: bool,
    pub quote_kind: u64,
    pub quote_prog: Pubkey,
    pub base_prog: Pubkey,
    pub pool_created: bool,
    tok_names: Vec<String>,
    /// unrelated pools created so far
    pub others: u32,
    /// report what crosses the program's boundary byte for byte
    pub wire: bool,
}

fn lead(bps: &[u8]) -> [u8; 8] {
    bps[..8].try_into().unwrap()
}

impl World {
    pub fn new(seed: u64, t22: bool, quote_kind: u64, slot: u64, ts: i64) -> World {
        let mut w = World {
            bank: Bank { accts: HashMap::new(), slot, ts },
            names: HashMap::new(),
            rev: HashMap::new(),
            seed,
            t22,
            quote_kind,
            quote_prog: if quote_kind >= 2 { spl_token_2022::ID } else { spl_token::ID },
            base_prog: if t22 { spl_token_2022::ID } else { spl_token::ID },
            pool_created: false,
            tok_names: vec![],
            others: 0,
            wire: false,
        };
        let fixed = |s: &str| Pubkey::from_str(s).unwrap();
        w.name("admin0", fixed("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi"));
        w.name("admin1", fixed("DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX"));
        w.name("treasury", fixed("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm"));
        w.name("none", Pubkey::default());
        for (n, k) in [
            ("sys", system_program::ID),
            ("tok", spl_token::ID),
            ("t22", spl_token_2022::ID),
            ("ata", anchor_spl::associated_token::ID),
            ("mpl", mpl_token_metadata::ID),
            ("dbc", DBC),
            ("zap", crate::acts::zap_id()),
            ("v1", dynamic_amm::ID),
            ("v2", damm_v2::ID),
            ("locker", locker::ID),
            ("yes", crate::ext::YES),
        ] {
            if n != "sys" {
                w.name(n, k);
            }
            w.bank.accts.insert(k, Acct { lamports: 1, data: vec![], owner: fixed("BPFLoaderUpgradeab1e11111111111111111111111"), exec: true });
        }
        // the all-zero key is both "no one" and the system program
        w.names.insert("sys".into(), system_program::ID);
        w.name("ixs", anchor_lang::solana_program::sysvar::instructions::ID);
        w.name("evauth", pda(&[b"__event_authority"], &DBC));
        w.name("rent", anchor_lang::solana_program::sysvar::rent::ID);
        w.name("authority", pda(&[b"pool_authority"], &DBC));
        for n in WALLETS {
            let k = w.key(n);
            w.bank.accts.insert(k, Acct { lamports: 10_000_000_000_000, ..Acct::empty() });
        }
        w.bank.accts.insert(w.names["authority"], Acct { lamports: 2_000_000_000, ..Acct::empty() });
        // mints
        let q = match quote_kind {
            1 => Pubkey::new_from_array(protocol_zap::constants::MINTS_DISALLOWED_TO_ZAP_OUT[1]),
            _ => derived("mint.q", seed),
        };
        w.name("mint.q", q);
        let total = 0xffff_ffff_ffff_ffffu64;
        let qm = match quote_kind {
            3 => mint_with(spl_token_2022::extension::ExtensionType::TransferFeeConfig, total),
            4 => mint_with(spl_token_2022::extension::ExtensionType::MetadataPointer, total),
            _ => pack_mint(None, total, 9),
        };
        w.put("mint.q", w.quote_prog, qm);
        w.put("mint.x", spl_token::ID, pack_mint(None, 0, 6));
        // a copy of the instructions sysvar that is not the sysvar
        w.put("fakeixs", system_program::ID, vec![]);
        for n in ["cfg", "tcfg", "mint.b", "tmint.b"] {
            w.key(n);
        }
        for (p, c, m) in [("pool", "cfg", "mint.b"), ("tpool", "tcfg", "tmint.b")] {
            let (b, c) = (w.key(m), w.key(c));
            let k = pda(&[b"pool", c.as_ref(), b.max(q).as_ref(), b.min(q).as_ref()], &DBC);
            w.name(p, k);
            let t = if p == "tpool" { "t" } else { "" };
            w.name(&format!("{}vault.b", t), pda(&[b"token_vault", b.as_ref(), k.as_ref()], &DBC));
            w.name(&format!("{}vault.q", t), pda(&[b"token_vault", q.as_ref(), k.as_ref()], &DBC));
            w.name(&format!("{}v1meta", t), pda(&[b"meteora", k.as_ref()], &DBC));
            w.name(&format!("{}v2meta", t), pda(&[b"damm_v2", k.as_ref()], &DBC));
            w.name(&format!("{}plmeta", t), pda(&[b"virtual_pool_metadata", k.as_ref()], &DBC));
            w.name(&format!("{}meta.b", t), pda(&[b"metadata", mpl_token_metadata::ID.as_ref(), b.as_ref()], &mpl_token_metadata::ID));
            w.name(&format!("{}lbase", t), pda(&[b"base_locker", k.as_ref()], &DBC));
        }
        w.name("lescrow", pda(&[b"escrow", w.names["lbase"].as_ref()], &locker::ID));
        for n in WALLETS {
            let k = w.key(n);
            w.name(&format!("op:{}", n), pda(&[b"operator", k.as_ref()], &DBC));
            w.name(&format!("pmeta:{}", n), pda(&[b"partner_metadata", k.as_ref()], &DBC));
            w.ata(n, "q", "mint.q", w.quote_prog);
            w.ata(n, "b", "mint.b", w.base_prog);
            w.ata(n, "tb", "tmint.b", spl_token::ID);
            w.ata(n, "lp", "v1.lp", spl_token::ID);
        }
        w.ata("authority", "lp", "v1.lp", spl_token::ID);
        for n in WALLETS {
            w.fund(&format!("{}.q", n), "mint.q", n, 0);
        }
        w.fund("treasury2.q", "mint.q", "treasury", 0);
        w.fund("leftover2.q", "mint.q", "leftover", 0);
        for (n, a) in [("trader0", 6_000_000_000_000_000_000u64), ("trader1", 5_000_000_000_000_000_000), ("eve", 3_000_000_000_000_000_000)] {
            w.fund(&format!("{}.q", n), "mint.q", n, a);
        }
        // a claim operator account of the earlier format
        let mut d = dynamic_bonding_curve::state::ClaimFeeOperator::DISCRIMINATOR.to_vec();
        d.extend(w.key("op1").to_bytes());
        d.resize(8 + std::mem::size_of::<dynamic_bonding_curve::state::ClaimFeeOperator>(), 0);
        w.put("legacyop", DBC, d);
        crate::acts::twin(&mut w);
        let mut names: BTreeSet<String> = BTreeSet::new();
        for n in WALLETS {
            names.insert(format!("{}.b", n));
            names.insert(format!("{}.q", n));
            names.insert(format!("{}.lp", n));
        }
        for n in [
            "treasury2.b", "treasury2.q", "leftover2.b", "leftover2.q", "vault.b", "vault.q", "tvault.q", "v1.b", "v1.q", "v2.b", "v2.q",
            "locker.b", "authority.lp", "esc:partner.lp", "esc:creator.lp", "esc:heir.lp", "esc:eve.lp",
        ] {
            names.insert(n.to_string());
        }
        w.tok_names = names.into_iter().collect();
        w
    }

    pub fn name(&mut self, n: &str, k: Pubkey) -> Pubkey {
        self.names.insert(n.to_string(), k);
        self.rev.insert(k, n.to_string());
        k
    }
    pub fn key(&mut self, n: &str) -> Pubkey {
        if let Some(k) = self.names.get(n) {
            return *k;
        }
        let k = derived(n, self.seed);
        self.name(n, k)
    }
    pub fn nm(&self, k: &Pubkey) -> String {
        self.rev.get(k).cloned().unwrap_or_else(|| format!("?{}", k))
    }
    fn ata(&mut self, w: &str, suffix: &str, mint: &str, prog: Pubkey) {
        let (o, m) = (self.key(w), self.key(mint));
        let k = pda(&[o.as_ref(), prog.as_ref(), m.as_ref()], &anchor_spl::associated_token::ID);
        self.name(&format!("{}.{}", w, suffix), k);
    }
    pub fn put(&mut self, n: &str, owner: Pubkey, data: Vec<u8>) {
        let k = self.key(n);
        self.bank.accts.insert(k, Acct { lamports: rent().minimum_balance(data.len()), data, owner, exec: false });
    }
    /// a token account, if its mint exists and it does not
    pub fn fund(&mut self, n: &str, mint: &str, owner: &str, amount: u64) {
        let (k, m, o) = (self.key(n), self.key(mint), self.key(owner));
        if amount == 0 && self.bank.accts.contains_key(&k) {
            return;
        }
        let Some(mint) = self.bank.accts.get(&m) else { return };
        let prog = mint.owner;
        let mut data = pack_account(&m, &o, amount);
        if self.quote_kind == 3 && m == self.names["mint.q"] {
            data = fee_account(&m, &o, amount);
        }
        self.bank.accts.insert(k, Acct { lamports: rent().minimum_balance(data.len()), data, owner: prog, exec: false });
    }

    pub fn fixtures(&mut self) {
        if self.exists("mint.b") && !self.exists("creator.b") {
            for n in WALLETS {
                self.fund(&format!("{}.b", n), "mint.b", n, 0);
            }
            self.fund("treasury2.b", "mint.b", "treasury", 0);
            self.fund("leftover2.b", "mint.b", "leftover", 0);
            self.fund("locker.b", "mint.b", "lescrow", 0);
        }
        if self.exists("tmint.b") && !self.exists("eve.tb") {
            for n in ["eve", "partner", "creator", "treasury", "leftover", "trader0", "op0"] {
                self.fund(&format!("{}.tb", n), "tmint.b", n, 0);
            }
        }
        if self.exists("v1.lp") && !self.exists("creator.lp") {
            for n in WALLETS {
                self.fund(&format!("{}.lp", n), "v1.lp", n, 0);
            }
            for n in ["partner", "creator", "heir", "eve"] {
                let e = format!("esc:{}", n);
                let ek = self.key(&e);
                let vk = format!("esc:{}.lp", n);
                self.fund(&vk, "v1.lp", &e, 0);
                let d = dynamic_amm::accounts::LockEscrow {
                    pool: self.key("v1.pool"),
                    owner: self.key(n),
                    escrow_vault: self.key(&vk),
                    bump: 0,
                    total_locked_amount: 0,
                    lp_per_token: 0,
                    unclaimed_fee_pending: 0,
                    a_fee: 0,
                    b_fee: 0,
                };
                let mut data = vec![];
                d.try_serialize(&mut data).unwrap();
                self.bank.accts.insert(ek, Acct { lamports: rent().minimum_balance(data.len()), data, owner: dynamic_amm::ID, exec: false });
            }
        }
    }
    pub fn exists(&self, n: &str) -> bool {
        self.names.get(n).map_or(false, |k| self.bank.accts.contains_key(k))
    }
    pub fn data(&self, n: &str) -> Option<Vec<u8>> {
        self.names.get(n).and_then(|k| self.bank.accts.get(k)).map(|a| a.data.clone())
    }
    pub fn lamports(&self, n: &str) -> u64 {
        self.names.get(n).and_then(|k| self.bank.accts.get(k)).map_or(0, |a| a.lamports)
    }
    pub fn tokens(&self, n: &str) -> u64 {
        match self.data(n) {
            Some(d) if d.len() >= 165 => u64::from_le_bytes(d[64..72].try_into().unwrap()),
            _ => 0,
        }
    }

    fn pod<T: bytemuck::AnyBitPattern + Discriminator>(&self, n: &str) -> Option<T> {
        let a = self.names.get(n).and_then(|k| self.bank.accts.get(k))?;
        if a.owner != DBC || a.data.len() < 8 + std::mem::size_of::<T>() || lead(&a.data) != lead(T::DISCRIMINATOR) {
            return None;
        }
        Some(bytemuck::pod_read_unaligned(&a.data[8..8 + std::mem::size_of::<T>()]))
    }
    pub fn config(&self, n: &str) -> Option<PoolConfig> {
        self.pod(n)
    }
    pub fn pool(&self, n: &str) -> Option<VirtualPool> {
        self.pod(n)
    }

    /// quote tokens a completing swap of an earlier program version took beyond the threshold
    pub fn overshoot(&mut self, n: u64) {
        let (Some(mut p), Some(c)) = (self.pool("pool"), self.config("cfg")) else { return };
        let spent = p.is_partner_withdraw_surplus + p.is_creator_withdraw_surplus + p.is_protocol_withdraw_surplus > 0;
        if p.quote_reserve < c.migration_quote_threshold || spent || self.tokens("trader1.q") < n || p.quote_reserve.checked_add(n).is_none() {
            return;
        }
        p.quote_reserve += n;
        let k = self.key("pool");
        let size = std::mem::size_of::<VirtualPool>();
        self.bank.accts.get_mut(&k).unwrap().data[8..8 + size].copy_from_slice(bytemuck::bytes_of(&p));
        for (name, d) in [("trader1.q", -(n as i128)), ("vault.q", n as i128)] {
            let k = self.key(name);
            let v = self.tokens(name) as i128 + d;
            self.bank.accts.get_mut(&k).unwrap().data[64..72].copy_from_slice(&(v as u64).to_le_bytes());
        }
    }

    /// What an earlier version of the program left behind.
    pub fn inherit(&mut self, kind: u64, n: usize) {
        if kind == 3 {
            let (Some(mut c), None) = (self.config("cfg"), self.pool("pool")) else { return };
            let mut pts: Vec<(u128, u128)> = c.curve.iter().take_while(|p| p.liquidity != 0).map(|p| (p.sqrt_price, p.liquidity)).collect();
            loop {
                let before = pts.len();
                let mut i = 0;
                while i < pts.len() && pts.len() < n.min(c.curve.len()) {
                    let lo = if i == 0 { c.sqrt_start_price } else { pts[i - 1].0 };
                    if pts[i].0 - lo >= 2 {
                        pts.insert(i, (lo + (pts[i].0 - lo) / 2, pts[i].1));
                        i += 1;
                    }
                    i += 1;
                }
                if pts.len() == before || pts.len() >= n {
                    break;
                }
            }
            for (i, (p, l)) in pts.iter().enumerate() {
                c.curve[i].sqrt_price = *p;
                c.curve[i].liquidity = *l;
            }
            let k = self.key("cfg");
            let size = std::mem::size_of::<PoolConfig>();
            self.bank.accts.get_mut(&k).unwrap().data[8..8 + size].copy_from_slice(bytemuck::bytes_of(&c));
            return;
        }
        let Some(mut p) = self.pool("pool") else { return };
        let k = self.key("pool");
        if kind == 1 && p.legacy_creation_fee_bits == 0 {
            p.legacy_creation_fee_bits = 1;
            self.bank.accts.get_mut(&k).unwrap().lamports += 10_000_000;
        }
        if kind == 2 && p.is_migrated == 0 {
            p.protocol_liquidity_migration_fee_bps = 0;
        }
        let size = std::mem::size_of::<VirtualPool>();
        self.bank.accts.get_mut(&k).unwrap().data[8..8 + size].copy_from_slice(bytemuck::bytes_of(&p));
    }

    fn mint_json(&self) -> Value {
        let none = json!({"supply": int(0), "auth": "none", "freeze": "none", "decimals": int(0), "program": "none", "updateAuth": "none", "mutable": int(0), "pointer": "none", "pointsTo": "none", "exts": {"$set": []}});
        let Some(a) = self.names.get("mint.b").and_then(|k| self.bank.accts.get(k)) else { return none };
        let opt = |x: COption<Pubkey>| match x {
            COption::None => "none".to_string(),
            COption::Some(k) => self.nm(&k),
        };
        let Ok(m) = spl_token::state::Mint::unpack_from_slice(&a.data[..82.min(a.data.len())]) else { return none };
        let (mut upd, mut mutable) = ("none".to_string(), 0);
        let (mut pointer, mut points, mut exts) = ("none".to_string(), "none".to_string(), vec![]);
        if a.owner == spl_token_2022::ID {
            use spl_token_2022::extension::{BaseStateWithExtensions, StateWithExtensions};
            if let Ok(s) = StateWithExtensions::<spl_token_2022::state::Mint>::unpack(&a.data) {
                exts = s.get_extension_types().unwrap_or_default().iter().map(|e| format!("{:?}", e)).collect();
                exts.sort();
                if let Ok(mp) = s.get_extension::<spl_token_2022::extension::metadata_pointer::MetadataPointer>() {
                    let named = |k: Option<Pubkey>| k.map_or("none".into(), |k| self.nm(&k));
                    pointer = named(mp.authority.into());
                    points = named(mp.metadata_address.into());
                }
                if let Ok(md) = s.get_variable_len_extension::<anchor_spl::token_2022_extensions::spl_token_metadata_interface::state::TokenMetadata>() {
                    let k: Option<Pubkey> = md.update_authority.into();
                    upd = k.map_or("none".into(), |k| self.nm(&k));
                    mutable = k.is_some() as u64;
                }
            }
        } else if let Some(d) = self.data("meta.b") {
            if d.len() >= 33 {
                upd = self.nm(&Pubkey::new_from_array(d[..32].try_into().unwrap()));
                mutable = d[32] as u64;
            }
        }
        json!({
            "supply": int(m.supply), "auth": opt(m.mint_authority), "freeze": opt(m.freeze_authority), "decimals": int(m.decimals),
            "program": self.nm(&a.owner), "updateAuth": upd, "mutable": int(mutable), "pointer": pointer, "pointsTo": points, "exts": {"$set": exts}
        })
    }

    fn cfg_json(&self, n: &str) -> Value {
        let zero: PoolConfig = bytemuck::Zeroable::zeroed();
        let c = self.config(n).unwrap_or(zero);
        let f = &c.pool_fees.base_fee;
        let d = &c.pool_fees.dynamic_fee;
        let vest = |v: &dynamic_bonding_curve::state::LiquidityVestingInfo| {
            json!({"on": v.is_initialized != 0, "pct": int(v.vesting_percentage), "bps": int(v.bps_per_period), "n": int(v.number_of_periods),
                   "freq": int(v.frequency), "cliff": int(v.cliff_duration_from_migration_time)})
        };
        let lv = &c.locked_vesting_config;
        let b = c.migrated_pool_base_fee_bytes;
        let mut curve: Vec<Value> = vec![];
        for p in c.curve.iter() {
            let (s, l) = (p.sqrt_price, p.liquidity);
            if s == 0 && l == 0 {
                break;
            }
            curve.push(json!({"p": int(s), "l": int(l)}));
        }
        let _ = b;
        json!({
            "id": if self.config(n).is_some() { n } else { "none" },
            "quoteMint": self.nm(&c.quote_mint), "partner": self.nm(&c.fee_claimer), "leftoverTo": self.nm(&c.leftover_receiver),
            "base": {"cliff": int(f.cliff_fee_numerator), "bmode": int(f.base_fee_mode), "f1": int(f.first_factor), "f2": int(f.second_factor), "f3": int(f.third_factor)},
            "dyn": {"on": d.initialized != 0, "bin": int(d.bin_step), "binQ": int(d.bin_step_u128), "filter": int(d.filter_period), "decay": int(d.decay_period),
                    "red": int(d.reduction_factor), "maxVol": int(d.max_volatility_accumulator), "vfc": int(d.variable_fee_control)},
            "pv": vest(&c.partner_liquidity_vesting_info), "cv": vest(&c.creator_liquidity_vesting_info),
            "collect": int(c.collect_fee_mode), "migOpt": int(c.migration_option), "actType": int(c.activation_type), "decimals": int(c.token_decimal),
            "tokenType": int(c.token_type), "quoteFlag": int(c.quote_token_flag),
            "pPerm": int(c.partner_permanent_locked_liquidity_percentage), "pLiq": int(c.partner_liquidity_percentage),
            "cPerm": int(c.creator_permanent_locked_liquidity_percentage), "cLiq": int(c.creator_liquidity_percentage),
            "migFeeOpt": int(c.migration_fee_option), "fixedSupply": int(c.fixed_token_supply_flag), "creatorPct": int(c.creator_trading_fee_percentage),
            "tokAuth": int(c.token_update_authority), "migFeePct": int(c.migration_fee_percentage), "creatorMigPct": int(c.creator_migration_fee_percentage),
            "swapBase": int(c.swap_base_amount), "migQuote": int(c.migration_quote_threshold), "migBase": int(c.migration_base_threshold),
            "migPrice": int(c.migration_sqrt_price),
            "lv": {"per": int(lv.amount_per_period), "cliffDur": int(lv.cliff_duration_from_migration_time), "freq": int(lv.frequency),
                   "n": int(lv.number_of_period), "cliffAmt": int(lv.cliff_unlock_amount)},
            "preSupply": int(c.pre_migration_token_supply), "postSupply": int(c.post_migration_token_supply),
            "mCollect": int(c.migrated_collect_fee_mode), "mDyn": int(c.migrated_dynamic_fee), "mFeeBps": int(c.migrated_pool_fee_bps),
            "mBaseMode": int(c.migrated_pool_base_fee_mode), "mComp": int(c.migrated_compounding_fee_bps),
            "mSched": self.msched(&c),
            "firstMin": int(c.enable_first_swap_with_min_fee), "creationFee": int(c.pool_creation_fee), "start": int(c.sqrt_start_price), "curve": curve
        })
    }

    /// the market-cap schedule, as the venue will be told (the stored bytes' layout is the program's own business)
    fn msched(&self, c: &PoolConfig) -> Value {
        let b = c.migrated_pool_base_fee_bytes;
        let g = |i: usize, n: usize| {
            let mut v = [0u8; 8];
            v[..n].copy_from_slice(&b[i..i + n]);
            u64::from_le_bytes(v)
        };
        json!({"n": int(g(0, 2)), "step": int(g(2, 2)), "expiry": int(g(4, 4)), "red": int(g(8, 8))})
    }

    fn pool_json(&self, n: &str) -> Value {
        let zero: VirtualPool = bytemuck::Zeroable::zeroed();
        let p = self.pool(n).unwrap_or(zero);
        let v = &p.volatility_tracker;
        let (refp, acc, vref) = (v.sqrt_price_reference, v.volatility_accumulator, v.volatility_reference);
        json!({
            "cfg": self.nm(&p.config), "creator": self.nm(&p.creator), "baseMint": self.nm(&p.base_mint), "baseVault": self.nm(&p.base_vault),
            "quoteVault": self.nm(&p.quote_vault), "baseRes": int(p.base_reserve), "quoteRes": int(p.quote_reserve),
            "protB": int(p.protocol_base_fee), "protQ": int(p.protocol_quote_fee), "partB": int(p.partner_base_fee), "partQ": int(p.partner_quote_fee),
            "creB": int(p.creator_base_fee), "creQ": int(p.creator_quote_fee), "price": int(p.sqrt_price), "act": int(p.activation_point),
            "kind": int(p.pool_type), "migrated": int(p.is_migrated), "partSurp": int(p.is_partner_withdraw_surplus),
            "protSurp": int(p.is_protocol_withdraw_surplus), "creSurp": int(p.is_creator_withdraw_surplus), "stage": int(p.migration_progress),
            "leftover": int(p.is_withdraw_leftover), "migFeeBits": int(p.migration_fee_withdraw_status),
            "totProtB": int(p.metrics.total_protocol_base_fee), "totProtQ": int(p.metrics.total_protocol_quote_fee),
            "totTradB": int(p.metrics.total_trading_base_fee), "totTradQ": int(p.metrics.total_trading_quote_fee),
            "finish": int(p.finish_curve_timestamp), "creationBits": int(p.creation_fee_bits), "legacyBits": int(p.legacy_creation_fee_bits),
            "hasSwap": int(p.has_swap), "lmfBps": int(p.protocol_liquidity_migration_fee_bps),
            "migProtB": int(p.protocol_migration_base_fee_amount), "migProtQ": int(p.protocol_migration_quote_fee_amount),
            "vol": {"last": int(v.last_update_timestamp), "refp": int(refp), "acc": int(acc), "vref": int(vref)}
        })
    }

    fn v1_json(&self) -> Value {
        let zero: MeteoraDammMigrationMetadata = bytemuck::Zeroable::zeroed();
        let m = self.pod::<MeteoraDammMigrationMetadata>("v1meta");
        let on = m.is_some();
        let m = m.unwrap_or(zero);
        json!({
            "on": on, "pool": self.nm(&m.virtual_pool), "partner": self.nm(&m.partner), "lpMint": self.nm(&m.lp_mint),
            "pLocked": int(m.partner_locked_liquidity), "pLp": int(m.partner_liquidity), "cLocked": int(m.creator_locked_liquidity), "cLp": int(m.creator_liquidity),
            "pLockedDone": int(m.partner_locked_status), "pClaimed": int(m.partner_claim_status),
            "cLockedDone": int(m.creator_locked_status), "cClaimed": int(m.creator_claim_status)
        })
    }

    fn v2_json(&self) -> Value {
        let size = std::mem::size_of::<damm_v2::accounts::Pool>();
        let zero: damm_v2::accounts::Pool = bytemuck::Zeroable::zeroed();
        let d = self.data("v2.pool");
        let on = d.is_some();
        let p = d.filter(|d| d.len() >= 8 + size).map_or(zero, |d| bytemuck::pod_read_unaligned(&d[8..8 + size]));
        let pos = |i: &str| {
            let owner = self.data(&format!("nft{}.t", i)).filter(|d| d.len() >= 72 && d[64] == 1).map_or("none".into(), |d| self.nm(&Pubkey::new_from_array(d[32..64].try_into().unwrap())));
            let (l, perm, vest) = self.data(&format!("pos{}", i)).and_then(|d| pos_read(&d)).unwrap_or((0, 0, 0));
            json!({"liq": int(l), "perm": int(perm), "vest": int(vest), "owner": owner})
        };
        let (price, liq) = (p.sqrt_price, p.liquidity);
        json!({"on": on, "price": int(price), "liq": int(liq), "a": int(p.token_a_amount), "b": int(p.token_b_amount), "pos1": pos("1"), "pos2": pos("2")})
    }

    pub fn project(&self) -> Value {
        let mut tok = BTreeMap::new();
        for n in &self.tok_names {
            tok.insert(n.clone(), int(self.tokens(n)));
        }
        let mut lam = BTreeMap::new();
        let mut named: u128 = 0;
        for n in WALLETS.iter().chain(["authority"].iter()) {
            let l = self.lamports(n);
            named += l as u128;
            lam.insert(n.to_string(), int(l));
        }
        let pool = self.names.get("pool").and_then(|k| self.bank.accts.get(k)).map_or(0, |a| a.lamports as i128 - rent().minimum_balance(a.data.len()) as i128);
        named = (named as i128 + pool) as u128;
        lam.insert("pool".into(), int(pool));
        let total: u128 = self.bank.accts.values().map(|a| a.lamports as u128).sum();
        lam.insert("other".into(), int(total - named));
        let mut ops = BTreeMap::new();
        for n in WALLETS {
            if let Some(o) = self.pod::<dynamic_bonding_curve::state::Operator>(&format!("op:{}", n)) {
                // an operator account is worth what it says, for the address it says
                let who = o.whitelisted_address;
                let perm = o.permission;
                if self.nm(&who) == n {
                    ops.insert(n.to_string(), int(perm));
                }
            }
        }
        let metas: Vec<String> = WALLETS
            .iter()
            .map(|n| format!("pmeta:{}", n))
            .chain(["plmeta".to_string(), "legacyop".to_string()])
            .filter(|n| self.exists(n))
            .collect();
        let has_pool = self.pool("pool").is_some();
        json!({
            "slot": int(self.bank.slot), "ts": int(self.bank.ts), "t22": self.t22, "quoteKind": int(self.quote_kind),
            "hasCfg": self.config("cfg").is_some(), "cfg": self.cfg_json("cfg"), "hasPool": has_pool, "pool": self.pool_json("pool"),
            "mint": self.mint_json(), "v1": self.v1_json(), "v2": self.v2_json(), "tok": map(tok), "lam": map(lam), "ops": map(ops),
            "metas": json!({"$set": metas}), "texts": self.texts_json()
        })
    }

    // which text each record holds; -1: something else, or for somebody else
    fn texts_json(&self) -> Value {
        use anchor_lang::AccountDeserialize;
        let mut out: BTreeMap<String, Value> = BTreeMap::new();
        for n in WALLETS {
            let name = format!("pmeta:{}", n);
            if !self.exists(&name) {
                continue;
            }
            let d = self.data(&name).unwrap();
            let mut d = &d[..];
            let t = dynamic_bonding_curve::state::PartnerMetadata::try_deserialize(&mut d)
                .ok()
                .filter(|m| self.nm(&m.fee_claimer) == n)
                .map_or(-1, |m| text_number(&[m.name, m.website, m.logo]));
            out.insert(name, int(t));
        }
        if self.exists("plmeta") {
            let d = self.data("plmeta").unwrap();
            let mut d = &d[..];
            let t = dynamic_bonding_curve::state::VirtualPoolMetadata::try_deserialize(&mut d)
                .ok()
                .filter(|m| self.nm(&m.virtual_pool) == "pool")
                .map_or(-1, |m| text_number(&[m.name, m.website, m.logo]));
            out.insert("plmeta".into(), int(t));
        }
        if self.pool("pool").is_some() {
            out.insert("mint".into(), int(self.mint_text().unwrap_or(-1)));
        }
        map(out)
    }
    fn mint_text(&self) -> Option<i64> {
        let a = self.names.get("mint.b").and_then(|k| self.bank.accts.get(k))?;
        if a.owner == spl_token_2022::ID {
            use spl_token_2022::extension::{BaseStateWithExtensions, StateWithExtensions};
            let s = StateWithExtensions::<spl_token_2022::state::Mint>::unpack(&a.data).ok()?;
            let md = s.get_variable_len_extension::<anchor_spl::token_2022_extensions::spl_token_metadata_interface::state::TokenMetadata>().ok()?;
            if !md.additional_metadata.is_empty() || self.nm(&md.mint) != "mint.b" {
                return None;
            }
            Some(text_number(&[md.name, md.symbol, md.uri]))
        } else {
            use anchor_lang::AnchorDeserialize;
            let d = self.data("meta.b")?;
            let x = mpl_token_metadata::types::DataV2::try_from_slice(d.get(65..)?).ok()?;
            if x.seller_fee_basis_points != 0 || x.creators.is_some() || x.collection.is_some() || x.uses.is_some() || Some(&Pubkey::new_from_array(d[33..65].try_into().unwrap())) != self.names.get("mint.b") {
                return None;
            }
            Some(text_number(&[x.name, x.symbol, x.uri]))
        }
    }
}

pub const TEXTS: usize = 10;
/// name, symbol or website, uri or logo
pub fn text(k: usize) -> [String; 3] {
    match k {
        0 => ["launch".into(), "L".into(), "u".into()],
        1 => ["".into(), "".into(), "".into()],
        2 => ["n".repeat(32), "s".repeat(10), format!("https://{}", "u".repeat(192))],
        3 => ["münze 🜚".into(), "ƒ".into(), "ipfs://ø".into()],
        4 => [" same ".into(), " same ".into(), " same ".into()],
        5 => ["n".into(), "".into(), "".into()],
        6 => ["".into(), "s".into(), "".into()],
        7 => ["".into(), "".into(), "u".into()],
        8 => ["n".into(), "s".into(), "".into()],
        _ => ["a\0".into(), "SYM".into(), "https://x.y/\u{7f}?a=b".into()],
    }
}
fn text_number(t: &[String; 3]) -> i64 {
    (0..TEXTS).find(|k| text(*k) == *t).map_or(-1, |k| k as i64)
}

fn mint_with(ext: spl_token_2022::extension::ExtensionType, supply: u64) -> Vec<u8> {
    use spl_token_2022::extension::{BaseStateWithExtensionsMut, ExtensionType, StateWithExtensionsMut};
    use spl_token_2022::state::Mint;
    let n = ExtensionType::try_calculate_account_len::<Mint>(&[ext]).unwrap();
    let mut d = vec![0u8; n];
    let mut s = StateWithExtensionsMut::<Mint>::unpack_uninitialized(&mut d).unwrap();
    match ext {
        ExtensionType::TransferFeeConfig => {
            let _ = s.init_extension::<spl_token_2022::extension::transfer_fee::TransferFeeConfig>(true).unwrap();
        }
        _ => {
            let _ = s.init_extension::<spl_token_2022::extension::metadata_pointer::MetadataPointer>(true).unwrap();
        }
    }
    s.base = Mint { supply, decimals: 9, is_initialized: true, ..Mint::default() };
    s.pack_base();
    s.init_account_type().unwrap();
    d
}

fn fee_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    use spl_token_2022::extension::{BaseStateWithExtensionsMut, ExtensionType, StateWithExtensionsMut};
    use spl_token_2022::state::{Account, AccountState};
    let n = ExtensionType::try_calculate_account_len::<Account>(&[ExtensionType::TransferFeeAmount]).unwrap();
    let mut d = vec![0u8; n];
    let mut s = StateWithExtensionsMut::<Account>::unpack_uninitialized(&mut d).unwrap();
    let _ = s.init_extension::<spl_token_2022::extension::transfer_fee::TransferFeeAmount>(true).unwrap();
    s.base = Account { mint: *mint, owner: *owner, amount, state: AccountState::Initialized, ..Account::default() };
    s.pack_base();
    s.init_account_type().unwrap();
    d
}

/// sets up the venue's configuration account as the environment says
pub fn write_v1_config(w: &mut World, num: u64, den: u64, dur: u64, partner_fee: u64, vault_cfg: &str, auth: &str) {
    let mut c: dynamic_amm::accounts::Config = dynamic_amm::accounts::Config::try_deserialize_unchecked(&mut &vec![0u8; 8 + 4096][..]).unwrap();
    c.pool_fees.trade_fee_numerator = num;
    c.pool_fees.trade_fee_denominator = den;
    c.activation_duration = dur;
    c.partner_fee_numerator = partner_fee;
    c.vault_config_key = w.key(vault_cfg);
    c.pool_creator_authority = w.key(auth);
    let mut d = vec![];
    c.try_serialize(&mut d).unwrap();
    w.put("v1.cfg", dynamic_amm::ID, d);
}

pub struct V2Cfg {
    pub num: u64,
    pub mode: u8,
    pub n: u16,
    pub freq: u64,
    pub red: u64,
    pub min: u128,
    pub max: u128,
    pub act: u8,
}

pub fn write_v2_config(w: &mut World, v: &V2Cfg, vault_cfg: &str, auth: &str) {
    let mut c: damm_v2::accounts::Config = bytemuck::Zeroable::zeroed();
    c.vault_config_key = w.key(vault_cfg);
    c.pool_creator_authority = w.key(auth);
    c.activation_type = v.act;
    c.sqrt_min_price = v.min;
    c.sqrt_max_price = v.max;
    let mut b = v.num.to_le_bytes().to_vec();
    b.push(v.mode);
    b.extend([0u8; 5]);
    b.extend(v.n.to_le_bytes());
    b.extend(v.freq.to_le_bytes());
    b.extend(v.red.to_le_bytes());
    let raw = bytemuck::bytes_of_mut(&mut c.pool_fees);
    raw[..b.len()].copy_from_slice(&b);
    let mut d = damm_v2::accounts::Config::DISCRIMINATOR.to_vec();
    d.extend(bytemuck::bytes_of(&c));
    w.put("v2.cfg", damm_v2::ID, d);
}
