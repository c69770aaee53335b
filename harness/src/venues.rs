//! Stand-ins for the locker and the two migration venues. Each does what its caller relies on: it takes exactly the
//! tokens the real venue takes for the arguments given, issues LP tokens or positions, refuses what the real venue
//! refuses (a lock by someone else than the position's owner, more than is unlocked), and records the call.
use crate::ext::{create, env, record};
use anchor_lang::prelude::*;
use anchor_lang::solana_program::program_pack::Pack;
use anchor_lang::solana_program::{entrypoint::ProgramResult, program_error::ProgramError};
use anchor_lang::Discriminator;
use anchor_spl::token::spl_token;
use anchor_spl::token_2022::spl_token_2022;
use ruint::aliases::U512;

type Infos = &'static [AccountInfo<'static>];
type R<T> = std::result::Result<T, ProgramError>;

const MIN_SQRT: u128 = 4295048016;
const MAX_SQRT: u128 = 79226673521066979257578248091;

pub fn ata(_a: Infos, _d: &[u8]) -> ProgramResult {
    Err(ProgramError::InvalidInstructionData)
}

fn args<T: AnchorDeserialize>(d: &[u8]) -> R<T> {
    let mut x = &d[8..];
    T::deserialize(&mut x).map_err(|_| ProgramError::InvalidInstructionData)
}

fn call_token(prog: &Pubkey, list: Vec<AccountInfo<'static>>, data: Vec<u8>) -> ProgramResult {
    let l: Infos = Box::leak(list.into_boxed_slice());
    if *prog == spl_token::ID {
        spl_token::processor::Processor::process(prog, l, &data)
    } else if *prog == spl_token_2022::ID {
        spl_token_2022::processor::Processor::process(prog, l, &data)
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn transfer(prog: &AccountInfo<'static>, from: &AccountInfo<'static>, mint: &AccountInfo<'static>, to: &AccountInfo<'static>, auth: &AccountInfo<'static>, n: u64) -> ProgramResult {
    let decimals = mint.try_borrow_data()?.get(44).copied().ok_or(ProgramError::InvalidAccountData)?;
    let ix = spl_token_2022::instruction::transfer_checked(prog.key, from.key, mint.key, to.key, auth.key, &[], n, decimals)?;
    call_token(prog.key, vec![from.clone(), mint.clone(), to.clone(), auth.clone()], ix.data)
}

/// creates a token account (of a mint without extensions) holding `amount`
fn token_account(payer: &AccountInfo<'static>, x: &AccountInfo<'static>, prog: &Pubkey, mint: &Pubkey, owner: &Pubkey, amount: u64) -> ProgramResult {
    create(payer, x, prog, &pack_account(mint, owner, amount))
}

pub fn pack_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut v = vec![0u8; 165];
    let a = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    spl_token::state::Account::pack(a, &mut v).unwrap();
    v
}

pub fn pack_mint(auth: Option<Pubkey>, supply: u64, decimals: u8) -> Vec<u8> {
    let mut v = vec![0u8; 82];
    let m = spl_token::state::Mint { mint_authority: auth.into(), supply, decimals, is_initialized: true, freeze_authority: None.into() };
    spl_token::state::Mint::pack(m, &mut v).unwrap();
    v
}

fn token_owner(x: &AccountInfo) -> R<Pubkey> {
    let d = x.try_borrow_data()?;
    d.get(32..64).map(|x| Pubkey::new_from_array(x.try_into().unwrap())).ok_or(ProgramError::InvalidAccountData)
}

fn cdiv(a: U512, b: U512) -> R<u64> {
    if b.is_zero() {
        return Err(ProgramError::ArithmeticOverflow);
    }
    let q = (a + b - U512::from(1)) / b;
    u64::try_from(q).map_err(|_| ProgramError::ArithmeticOverflow)
}

fn amounts(comp: bool, l: u128, s: u128) -> R<(u64, u64)> {
    let (l5, s5) = (U512::from(l), U512::from(s));
    if s < MIN_SQRT || s > MAX_SQRT {
        return Err(ProgramError::InvalidArgument);
    }
    let one = U512::from(1) << 128;
    if comp {
        Ok((cdiv(l5, s5)?, cdiv(l5 * s5, one)?))
    } else {
        let max = U512::from(MAX_SQRT);
        Ok((cdiv(l5 * (max - s5), s5 * max)?, cdiv(l5 * (s5 - U512::from(MIN_SQRT)), one)?))
    }
}

fn isqrt(n: u128) -> u128 {
    let mut lo = 0u128;
    let mut hi = 1u128 << 64;
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if m.checked_mul(m).map_or(false, |x| x <= n) {
            lo = m
        } else {
            hi = m
        }
    }
    lo
}

/// what a misbehaving venue does to the account that signed for it
fn misbehave(pid: &Pubkey, payer: &AccountInfo<'static>) -> ProgramResult {
    match env("evil").unwrap_or(0) {
        1 => {
            payer.assign(pid);
            Ok(())
        }
        2 => payer.realloc(8, true),
        _ => Ok(()),
    }
}

pub const POS_TAG: [u8; 8] = *b"position";

fn pos_bytes(nft_mint: &Pubkey, pool: &Pubkey, liq: u128, perm: u128, vest: u128) -> Vec<u8> {
    let mut v = POS_TAG.to_vec();
    v.extend(nft_mint.to_bytes());
    v.extend(pool.to_bytes());
    v.extend(liq.to_le_bytes());
    v.extend(perm.to_le_bytes());
    v.extend(vest.to_le_bytes());
    v
}

pub fn pos_read(d: &[u8]) -> Option<(u128, u128, u128)> {
    if d.len() < 120 || d[..8] != POS_TAG {
        return None;
    }
    let g = |i: usize| u128::from_le_bytes(d[i..i + 16].try_into().unwrap());
    Some((g(72), g(88), g(104)))
}

fn pos_write(x: &AccountInfo, p: (u128, u128, u128)) -> ProgramResult {
    let mut d = x.try_borrow_mut_data()?;
    d[72..88].copy_from_slice(&p.0.to_le_bytes());
    d[88..104].copy_from_slice(&p.1.to_le_bytes());
    d[104..120].copy_from_slice(&p.2.to_le_bytes());
    Ok(())
}

/// the caller must own the position's token and sign
fn pos_owned(owner: &AccountInfo, nft: &AccountInfo, pos: &AccountInfo) -> ProgramResult {
    let d = nft.try_borrow_data()?;
    let p = pos.try_borrow_data()?;
    if d.len() < 72 || p.len() < 72 || d[..32] != p[8..40] || d[64..72] != 1u64.to_le_bytes() || token_owner(nft)? != *owner.key || !owner.is_signer {
        return Err(ProgramError::Custom(77));
    }
    Ok(())
}

fn v2_mint_position(payer: &AccountInfo<'static>, owner: &Pubkey, mint: &AccountInfo<'static>, nft: &AccountInfo<'static>, pos: &AccountInfo<'static>, pool: &Pubkey, pid: &Pubkey, liq: u128) -> ProgramResult {
    if !mint.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    create(payer, mint, &spl_token_2022::ID, &pack_mint(None, 1, 0))?;
    token_account(payer, nft, &spl_token_2022::ID, mint.key, owner, 1)?;
    create(payer, pos, pid, &pos_bytes(mint.key, pool, liq, 0, 0))
}

#[allow(clippy::too_many_arguments)]
fn v2_open(pid: &Pubkey, a: Infos, k: usize, liq: u128, sqrt_price: u128, comp: bool, mode: u8, act_type: u8) -> R<(u64, u64)> {
    // a: creator, nft mint, nft account, payer, [k extra signer], config, pool authority, pool, position, mints,
    //    vaults, payer tokens, programs
    let (creator, mint, nft, payer) = (&a[0], &a[1], &a[2], &a[3]);
    let (pool, pos) = (&a[k + 2], &a[k + 3]);
    let (ma, mb, va, vb, pa, pb, proga, progb) = (&a[k + 4], &a[k + 5], &a[k + 6], &a[k + 7], &a[k + 8], &a[k + 9], &a[k + 10], &a[k + 11]);
    if !payer.is_signer || *a[k + 12].key != spl_token_2022::ID {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let (x, y) = amounts(comp, liq, sqrt_price)?;
    let mut p: damm_v2::accounts::Pool = bytemuck::Zeroable::zeroed();
    p.token_a_mint = *ma.key;
    p.token_b_mint = *mb.key;
    p.token_a_vault = *va.key;
    p.token_b_vault = *vb.key;
    p.liquidity = liq;
    p.sqrt_price = sqrt_price;
    p.sqrt_min_price = MIN_SQRT;
    p.sqrt_max_price = MAX_SQRT;
    p.collect_fee_mode = mode;
    p.activation_type = act_type;
    p.token_a_amount = x;
    p.token_b_amount = y;
    p.creator = *creator.key;
    let mut data = damm_v2::accounts::Pool::DISCRIMINATOR.to_vec();
    data.extend(bytemuck::bytes_of(&p));
    create(payer, pool, pid, &data)?;
    token_account(payer, va, ma.owner, ma.key, a[k + 1].key, 0)?;
    token_account(payer, vb, mb.owner, mb.key, a[k + 1].key, 0)?;
    v2_mint_position(payer, creator.key, mint, nft, pos, pool.key, pid, liq)?;
    transfer(proga, pa, ma, va, payer, x)?;
    transfer(progb, pb, mb, vb, payer, y)?;
    misbehave(pid, payer)?;
    Ok((x, y))
}

fn v2(pid: &Pubkey, a: Infos, d: &[u8]) -> ProgramResult {
    use damm_v2::client::args as ia;
    let tag = &d[..8];
    if tag == ia::InitializePool::DISCRIMINATOR {
        let x: ia::InitializePool = args(d)?;
        let (qa, qb) = v2_open(pid, a, 4, x.params.liquidity, x.params.sqrt_price, false, 255, 255)?;
        record(
            "v2.init",
            vec![("config", *a[4].key), ("base", *a[8].key), ("quote", *a[9].key), ("payer", *a[3].key), ("creator", *a[0].key)],
            vec![("liq", x.params.liquidity), ("price", x.params.sqrt_price), ("a", qa as u128), ("b", qb as u128), ("act", x.params.activation_point.map_or(0, |v| v as u128 + 1))],
        );
        return Ok(());
    }
    if tag == ia::InitializePoolWithDynamicConfig::DISCRIMINATOR {
        let x: ia::InitializePoolWithDynamicConfig = args(d)?;
        let p = x.params;
        if !a[4].is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let (qa, qb) = v2_open(pid, a, 5, p.liquidity, p.sqrt_price, p.collect_fee_mode == 2, p.collect_fee_mode, p.activation_type)?;
        let f = p.pool_fees;
        let b = f.base_fee.data;
        let le = |r: std::ops::Range<usize>| {
            let mut v = [0u8; 16];
            v[..r.len()].copy_from_slice(&b[r]);
            u128::from_le_bytes(v)
        };
        // borsh layout of both base fee kinds: cliff u64, n u16, then 16 bytes, then mode u8
        let market = b[26] == 3 || b[26] == 4;
        let (f1, f2, f3, f4) = if market {
            // n u16, step u32, expiry u32, reduction u64
            (le(8..10), le(10..14), le(14..18), le(18..26))
        } else {
            // n u16, frequency u64, reduction u64
            (le(8..10), le(10..18), le(18..26), 0)
        };
        let mut ints = vec![
            ("liq", p.liquidity),
            ("price", p.sqrt_price),
            ("min", p.sqrt_min_price),
            ("max", p.sqrt_max_price),
            ("alpha", p.has_alpha_vault as u128),
            ("actType", p.activation_type as u128),
            ("mode", p.collect_fee_mode as u128),
            ("act", p.activation_point.map_or(0, |v| v as u128 + 1)),
            ("cliff", le(0..8)),
            ("feeMode", b[26] as u128),
            ("f1", f1),
            ("f2", f2),
            ("f3", f3),
            ("f4", f4),
            ("comp", f.compounding_fee_bps as u128),
            ("dyn", f.dynamic_fee.is_some() as u128),
            ("a", qa as u128),
            ("b", qb as u128),
        ];
        if let Some(y) = f.dynamic_fee {
            ints.extend([
                ("dbin", y.bin_step as u128),
                ("dbinq", y.bin_step_u128),
                ("dfilter", y.filter_period as u128),
                ("ddecay", y.decay_period as u128),
                ("dred", y.reduction_factor as u128),
                ("dmax", y.max_volatility_accumulator as u128),
                ("dvfc", y.variable_fee_control as u128),
            ]);
        }
        record("v2.initDyn", vec![("config", *a[5].key), ("base", *a[9].key), ("quote", *a[10].key), ("payer", *a[3].key), ("creator", *a[0].key)], ints);
        return Ok(());
    }
    if tag == ia::CreatePosition::DISCRIMINATOR {
        // owner, nft mint, nft account, pool, position, pool authority, payer
        v2_mint_position(&a[6], a[0].key, &a[1], &a[2], &a[4], a[3].key, pid, 0)?;
        record("v2.position", vec![("owner", *a[0].key), ("pool", *a[3].key), ("position", *a[4].key)], vec![]);
        return Ok(());
    }
    if tag == ia::AddLiquidity::DISCRIMINATOR {
        let x: ia::AddLiquidity = args(d)?;
        let l = x.params.liquidity_delta;
        pos_owned(&a[9], &a[8], &a[1])?;
        let (price, comp, ra, rb, tot) = {
            let pd = a[0].try_borrow_data()?;
            let p: damm_v2::accounts::Pool = bytemuck::pod_read_unaligned(&pd[8..8 + std::mem::size_of::<damm_v2::accounts::Pool>()]);
            (p.sqrt_price, p.collect_fee_mode == 2, p.token_a_amount, p.token_b_amount, p.liquidity)
        };
        let (qa, qb) = if comp {
            (
                cdiv(U512::from(ra) * U512::from(l), U512::from(tot))?,
                cdiv(U512::from(rb) * U512::from(l), U512::from(tot))?,
            )
        } else {
            amounts(false, l, price)?
        };
        if qa > x.params.token_a_amount_threshold || qb > x.params.token_b_amount_threshold {
            return Err(ProgramError::Custom(78));
        }
        transfer(&a[10], &a[2], &a[6], &a[4], &a[9], qa)?;
        transfer(&a[11], &a[3], &a[7], &a[5], &a[9], qb)?;
        {
            let mut pd = a[0].try_borrow_mut_data()?;
            let n = 8 + std::mem::size_of::<damm_v2::accounts::Pool>();
            let mut p: damm_v2::accounts::Pool = bytemuck::pod_read_unaligned(&pd[8..n]);
            p.token_a_amount += qa;
            p.token_b_amount += qb;
            p.liquidity += l;
            pd[8..n].copy_from_slice(bytemuck::bytes_of(&p));
        }
        let p = { pos_read(&a[1].try_borrow_data()?).ok_or(ProgramError::InvalidAccountData)? };
        pos_write(&a[1], (p.0 + l, p.1, p.2))?;
        record("v2.add", vec![("pool", *a[0].key), ("position", *a[1].key)], vec![("liq", l), ("a", qa as u128), ("b", qb as u128)]);
        return Ok(());
    }
    if tag == ia::PermanentLockPosition::DISCRIMINATOR {
        let x: ia::PermanentLockPosition = args(d)?;
        pos_owned(&a[3], &a[2], &a[1])?;
        let p = { pos_read(&a[1].try_borrow_data()?).ok_or(ProgramError::InvalidAccountData)? };
        let n = x.permanent_lock_liquidity;
        if n == 0 || p.1 + p.2 + n > p.0 {
            return Err(ProgramError::Custom(79));
        }
        pos_write(&a[1], (p.0, p.1 + n, p.2))?;
        record("v2.lock", vec![("pool", *a[0].key), ("position", *a[1].key)], vec![("liq", n)]);
        return Ok(());
    }
    if tag == ia::LockInnerPosition::DISCRIMINATOR {
        let x: ia::LockInnerPosition = args(d)?;
        let v = x.params;
        pos_owned(&a[3], &a[2], &a[1])?;
        let p = { pos_read(&a[1].try_borrow_data()?).ok_or(ProgramError::InvalidAccountData)? };
        let n = v
            .liquidity_per_period
            .checked_mul(v.number_of_period as u128)
            .and_then(|y| y.checked_add(v.cliff_unlock_liquidity))
            .ok_or(ProgramError::ArithmeticOverflow)?;
        if n == 0 || p.1 + p.2 + n > p.0 {
            return Err(ProgramError::Custom(79));
        }
        pos_write(&a[1], (p.0, p.1, p.2 + n))?;
        record(
            "v2.vest",
            vec![("pool", *a[0].key), ("position", *a[1].key)],
            vec![
                ("cliff", v.cliff_point.map_or(0, |c| c as u128 + 1)),
                ("freq", v.period_frequency as u128),
                ("cliffLiq", v.cliff_unlock_liquidity),
                ("per", v.liquidity_per_period),
                ("n", v.number_of_period as u128),
            ],
        );
        return Ok(());
    }
    Err(ProgramError::InvalidInstructionData)
}

fn v1(pid: &Pubkey, a: Infos, d: &[u8]) -> ProgramResult {
    use dynamic_amm::client::args as ia;
    let tag = &d[..8];
    if tag == ia::InitializePermissionlessConstantProductPoolWithConfig2::DISCRIMINATOR {
        let x: ia::InitializePermissionlessConstantProductPoolWithConfig2 = args(d)?;
        let payer = &a[18];
        let (lp_mint, ma, mb, ta, tb, pa, pb, plp) = (&a[2], &a[3], &a[4], &a[7], &a[8], &a[13], &a[14], &a[15]);
        if !payer.is_signer || x.token_a_amount == 0 || x.token_b_amount == 0 {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let lp = match env("lp").unwrap_or(0) {
            0 => isqrt(x.token_a_amount as u128 * x.token_b_amount as u128) as u64,
            n => n as u64,
        };
        let mut data = a[0].key.to_bytes().to_vec();
        data.extend(a[1].key.to_bytes());
        create(payer, &a[0], pid, &data)?;
        create(payer, lp_mint, &spl_token::ID, &pack_mint(Some(*a[0].key), lp, 9))?;
        if ta.data_is_empty() {
            token_account(payer, ta, &spl_token::ID, ma.key, a[5].key, 0)?;
        }
        if tb.data_is_empty() {
            token_account(payer, tb, &spl_token::ID, mb.key, a[6].key, 0)?;
        }
        transfer(&a[23], pa, ma, ta, payer, x.token_a_amount)?;
        transfer(&a[23], pb, mb, tb, payer, x.token_b_amount)?;
        token_account(payer, plp, &spl_token::ID, lp_mint.key, payer.key, lp)?;
        misbehave(pid, payer)?;
        record(
            "v1.init",
            vec![("pool", *a[0].key), ("config", *a[1].key), ("base", *ma.key), ("quote", *mb.key), ("payer", *payer.key)],
            vec![
                ("a", x.token_a_amount as u128),
                ("b", x.token_b_amount as u128),
                ("act", x.activation_point.map_or(0, |v| v as u128 + 1)),
                ("lp", lp as u128),
            ],
        );
        return Ok(());
    }
    if tag == ia::Lock::DISCRIMINATOR {
        let x: ia::Lock = args(d)?;
        // pool, lp mint, lock escrow, owner, source tokens, escrow vault, token program
        let e = { dynamic_amm::accounts::LockEscrow::try_deserialize(&mut &a[2].try_borrow_data()?[..]).map_err(|_| ProgramError::InvalidAccountData)? };
        if e.pool != *a[0].key || e.escrow_vault != *a[5].key {
            return Err(ProgramError::InvalidAccountData);
        }
        let have = { spl_token::state::Account::unpack(&a[4].try_borrow_data()?)?.amount };
        let n = x.max_amount.min(have);
        transfer(&a[6], &a[4], &a[1], &a[5], &a[3], n)?;
        if env("evil").unwrap_or(0) > 0 {
            misbehave(pid, &a[3])?;
        }
        record("v1.lock", vec![("owner", e.owner), ("pool", e.pool)], vec![("max", x.max_amount as u128), ("amount", n as u128)]);
        return Ok(());
    }
    Err(ProgramError::InvalidInstructionData)
}

fn locker(pid: &Pubkey, a: Infos, d: &[u8]) -> ProgramResult {
    use locker::client::args as ia;
    if d[..8] != *ia::CreateVestingEscrowV2::DISCRIMINATOR {
        return Err(ProgramError::InvalidInstructionData);
    }
    let x: ia::CreateVestingEscrowV2 = args(d)?;
    let p = x.params;
    // base, escrow, mint, escrow token, sender, sender token, recipient, token program
    if !a[0].is_signer || !a[4].is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let want = Pubkey::find_program_address(&[b"escrow", a[0].key.as_ref()], pid).0;
    if *a[1].key != want || p.frequency == 0 || p.cliff_time < p.vesting_start_time || p.update_recipient_mode > 3 || p.cancel_mode > 3 {
        return Err(ProgramError::InvalidArgument);
    }
    if token_owner(&a[3])? != *a[1].key {
        return Err(ProgramError::InvalidAccountData);
    }
    let total = p
        .amount_per_period
        .checked_mul(p.number_of_period)
        .and_then(|v| v.checked_add(p.cliff_unlock_amount))
        .ok_or(ProgramError::ArithmeticOverflow)?;
    let mut data = a[6].key.to_bytes().to_vec();
    data.extend(a[2].key.to_bytes());
    create(&a[4], &a[1], pid, &data)?;
    transfer(&a[7], &a[5], &a[2], &a[3], &a[4], total)?;
    misbehave(pid, &a[4])?;
    record(
        "locker",
        vec![("mint", *a[2].key), ("recipient", *a[6].key), ("from", *a[5].key)],
        vec![
            ("start", p.vesting_start_time as u128),
            ("cliffTime", p.cliff_time as u128),
            ("freq", p.frequency as u128),
            ("cliffAmt", p.cliff_unlock_amount as u128),
            ("per", p.amount_per_period as u128),
            ("n", p.number_of_period as u128),
            ("update", p.update_recipient_mode as u128),
            ("cancel", p.cancel_mode as u128),
            ("total", total as u128),
        ],
    );
    Ok(())
}

pub fn dispatch(pid: &Pubkey, a: Infos, d: &[u8]) -> ProgramResult {
    if d.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }
    if *pid == damm_v2::ID {
        v2(pid, a, d)
    } else if *pid == dynamic_amm::ID {
        v1(pid, a, d)
    } else if *pid == locker::ID {
        locker(pid, a, d)
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}
