//! Stand-ins for the programs the program under test calls: the system program (faithful), and the venues and
//! services around it (token metadata, locker, DAMM v1 with its vaults, DAMM v2). A venue stand-in does what the
//! caller observes - moves the tokens it is entitled to, creates the accounts that are read back - and records the
//! call with its arguments.
use crate::svm::{rent, ExtCall, CTX};
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{entrypoint::ProgramResult, program_error::ProgramError, system_program};

type Infos = &'static [AccountInfo<'static>];

pub fn record(name: &str, keys: Vec<(&str, Pubkey)>, ints: Vec<(&str, u128)>) {
    CTX.with(|c| {
        c.borrow_mut().calls.push(ExtCall {
            name: name.into(),
            keys: keys.into_iter().map(|(a, b)| (a.to_string(), b)).collect(),
            ints: ints.into_iter().map(|(a, b)| (a.to_string(), b)).collect(),
        })
    })
}

pub fn env(k: &str) -> Option<u128> {
    CTX.with(|c| c.borrow().env.get(k).copied())
}

fn u64at(d: &[u8], i: usize) -> std::result::Result<u64, ProgramError> {
    d.get(i..i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).ok_or(ProgramError::InvalidInstructionData)
}
fn keyat(d: &[u8], i: usize) -> std::result::Result<Pubkey, ProgramError> {
    d.get(i..i + 32).map(|x| Pubkey::new_from_array(x.try_into().unwrap())).ok_or(ProgramError::InvalidInstructionData)
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, n: u64) -> ProgramResult {
    if from.key == to.key {
        return Ok(());
    }
    let f = from.lamports();
    let t = to.lamports();
    **from.try_borrow_mut_lamports()? = f.checked_sub(n).ok_or(ProgramError::InsufficientFunds)?;
    **to.try_borrow_mut_lamports()? = t.checked_add(n).ok_or(ProgramError::InsufficientFunds)?;
    Ok(())
}

pub fn system(a: Infos, d: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(d.get(..4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap());
    let alloc = |x: &AccountInfo, space: u64| -> ProgramResult {
        if !x.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !x.data_is_empty() || *x.owner != system_program::ID {
            return Err(ProgramError::Custom(0));
        }
        x.realloc(space as usize, true)
    };
    let assign = |x: &AccountInfo, owner: &Pubkey| -> ProgramResult {
        if *x.owner == *owner {
            return Ok(());
        }
        if !x.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        x.assign(owner);
        Ok(())
    };
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() || *from.owner != system_program::ID {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < n {
            return Err(ProgramError::Custom(1));
        }
        move_lamports(from, to, n)
    };
    match tag {
        0 => {
            let (lam, space, owner) = (u64at(d, 4)?, u64at(d, 12)?, keyat(d, 20)?);
            if a[1].lamports() != 0 {
                return Err(ProgramError::Custom(0));
            }
            alloc(&a[1], space)?;
            assign(&a[1], &owner)?;
            transfer(&a[0], &a[1], lam)
        }
        1 => assign(&a[0], &keyat(d, 4)?),
        2 => transfer(&a[0], &a[1], u64at(d, 4)?),
        8 => alloc(&a[0], u64at(d, 4)?),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// creates an account on behalf of a stand-in (which on chain would sign for it)
pub fn create(payer: &AccountInfo, x: &AccountInfo, owner: &Pubkey, data: &[u8]) -> ProgramResult {
    if !x.data_is_empty() || *x.owner != system_program::ID {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    x.realloc(data.len(), true)?;
    x.try_borrow_mut_data()?.copy_from_slice(data);
    x.assign(owner);
    let need = rent().minimum_balance(data.len()).saturating_sub(x.lamports());
    if !payer.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    move_lamports(payer, x, need)
}

fn metaplex(pid: &Pubkey, a: Infos, d: &[u8]) -> ProgramResult {
    use mpl_token_metadata::instructions as mi;
    match d.first() {
        Some(33) => {
            // metadata, mint, mint authority, payer, update authority
            let args: mi::CreateMetadataAccountV3InstructionArgs =
                AnchorDeserialize::try_from_slice(&d[1..]).map_err(|_| ProgramError::InvalidInstructionData)?;
            if !a[2].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            let want = Pubkey::find_program_address(&[b"metadata", pid.as_ref(), a[1].key.as_ref()], pid).0;
            if want != *a[0].key {
                return Err(ProgramError::InvalidSeeds);
            }
            let mut data = a[4].key.to_bytes().to_vec();
            data.push(args.is_mutable as u8);
            data.extend(a[1].key.to_bytes());
            args.data.serialize(&mut data).map_err(|_| ProgramError::InvalidInstructionData)?;
            create(&a[3], &a[0], pid, &data)?;
            record("mpl.create", vec![("mint", *a[1].key), ("auth", *a[4].key)], vec![("mutable", args.is_mutable as u128)]);
            Ok(())
        }
        Some(15) => {
            let args: mi::UpdateMetadataAccountV2InstructionArgs =
                AnchorDeserialize::try_from_slice(&d[1..]).map_err(|_| ProgramError::InvalidInstructionData)?;
            let mut data = a[0].try_borrow_mut_data()?;
            if data.len() < 65 || data[..32] != a[1].key.to_bytes() || !a[1].is_signer {
                return Err(ProgramError::Custom(7));
            }
            if args.data.is_some() || args.primary_sale_happened.is_some() || args.is_mutable.is_some() {
                return Err(ProgramError::Custom(8)); // not asked of this stand-in
            }
            if let Some(k) = args.new_update_authority {
                data[..32].copy_from_slice(&k.to_bytes());
                record("mpl.update", vec![("auth", k)], vec![]);
            }
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// A program that does nothing and is content with everything.
pub const YES: Pubkey = Pubkey::new_from_array([77; 32]);

pub fn dispatch(pid: &Pubkey, a: Infos, d: &[u8]) -> ProgramResult {
    if *pid == YES {
        return Ok(());
    }
    if *pid == mpl_token_metadata::ID {
        return metaplex(pid, a, d);
    }
    if *pid == anchor_spl::associated_token::ID {
        return crate::venues::ata(a, d);
    }
    crate::venues::dispatch(pid, a, d)
}
