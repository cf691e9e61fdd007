//! A harness program: an extra transceiver whose attestations the simulator
//! controls (honest or not), and a governed target that records its calls.
//!
//! data[0] == 0: create accounts[1] (signer) owned by this program, holding
//!               data[1..]; payer accounts[0].
//! no data or data[0] == 1: record: accounts[0] is the log account (owned by us): append
//!               the whole call (accounts + data).
//! data[0] == 2: CPI: mark_outbox_item_as_released on the manager, signing with
//!               our "outbox_item_signer" PDA. accounts: signer PDA, config,
//!               outbox item, registered transceiver, manager program.

use solana_sdk::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey::Pubkey,
};
use solana_program::program::invoke_signed;

pub fn process(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match data.first() {
        Some(0) => {
            let body = &data[1..];
            let rent = solana_program::rent::Rent::default().minimum_balance(body.len());
            invoke_signed(
                &solana_program::system_instruction::create_account(
                    accounts[0].key,
                    accounts[1].key,
                    rent,
                    body.len() as u64,
                    program_id,
                ),
                &[accounts[0].clone(), accounts[1].clone()],
                &[],
            )?;
            accounts[1].try_borrow_mut_data()?.copy_from_slice(body);
            Ok(())
        }
        None | Some(1) => Ok(()),
        Some(2) => {
            let (_, bump) = Pubkey::find_program_address(&[b"outbox_item_signer"], program_id);
            let ix = Instruction {
                program_id: *accounts[4].key,
                accounts: vec![
                    AccountMeta::new_readonly(*accounts[0].key, true),
                    AccountMeta::new_readonly(*accounts[1].key, false),
                    AccountMeta::new(*accounts[2].key, false),
                    AccountMeta::new_readonly(*accounts[3].key, false),
                ],
                data: crate::ix::disc("mark_outbox_item_as_released").to_vec(),
            };
            invoke_signed(&ix, accounts, &[&[b"outbox_item_signer", &[bump]]])
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}
