//! Stand-in for the validation library of the zap program (not available offline): it records what it is asked to
//! validate and answers as the environment tells it to.
pub mod constants {
    // SOL and USDC
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [
        [
            6, 155, 136, 87, 254, 171, 129, 132, 251, 104, 127, 99, 70, 24, 192, 53, 218, 196, 57, 220, 26, 235, 59,
            85, 152, 160, 240, 0, 0, 0, 0, 1,
        ],
        [
            198, 250, 122, 243, 190, 219, 173, 58, 61, 101, 243, 106, 171, 201, 116, 49, 177, 187, 228, 194, 210, 246,
            224, 228, 124, 166, 2, 3, 69, 47, 93, 97,
        ],
    ];
}
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Asked {
    pub amount: u64,
    pub program: [u8; 32],
    pub receiver: [u8; 32],
    pub receiver_data: Vec<u8>,
    pub sysvar: Vec<u8>,
    pub treasury: [u8; 32],
    pub paired: [u8; 32],
}
thread_local! {
    pub static ASKED: std::cell::RefCell<Vec<Asked>> = const { std::cell::RefCell::new(vec![]) };
    pub static ACCEPT: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
pub mod utils {
    use super::*;
    pub fn validate_zap_out_to_treasury(
        amount: u64,
        program: &[u8; 32],
        receiver: &[u8; 32],
        receiver_data: &[u8],
        sysvar: &[u8],
        treasury: &[u8; 32],
        paired: &[u8; 32],
    ) -> Result<(), error::ProtozolZapError> {
        ASKED.with(|a| {
            a.borrow_mut().push(Asked {
                amount,
                program: *program,
                receiver: *receiver,
                receiver_data: receiver_data.to_vec(),
                sysvar: sysvar.to_vec(),
                treasury: *treasury,
                paired: *paired,
            })
        });
        if ACCEPT.with(|a| a.get()) { Ok(()) } else { Err(error::ProtozolZapError::InvalidZapOutParameters) }
    }
}
