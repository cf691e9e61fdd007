//! Addresses, instruction builders and account decoders, written from the
//! programs' published interface (IDL order, seeds, borsh layouts) and not
//! from the programs' own types, so that a defect there cannot hide itself.

use std::{cell::RefCell, collections::HashMap};

use solana_sdk::{
    bpf_loader_upgradeable,
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    keccak,
    pubkey::Pubkey,
    system_program, sysvar,
};

use crate::svm::*;

pub fn disc(name: &str) -> [u8; 8] {
    hashv(&[b"global:", name.as_bytes()]).to_bytes()[..8]
        .try_into()
        .unwrap()
}
pub fn acc_disc(name: &str) -> [u8; 8] {
    hashv(&[b"account:", name.as_bytes()]).to_bytes()[..8]
        .try_into()
        .unwrap()
}

thread_local! {
    static PDAS: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), Pubkey>> = RefCell::new(HashMap::new());
}

pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    let key = (seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), *program);
    PDAS.with(|m| {
        if let Some(k) = m.borrow().get(&key) {
            return *k;
        }
        let k = Pubkey::find_program_address(seeds, program).0;
        let mut m = m.borrow_mut();
        if m.len() > 200_000 {
            m.clear();
        }
        m.insert(key, k);
        k
    })
}

pub fn named(name: &str, n: u64) -> Pubkey {
    Pubkey::new_from_array(hashv(&[b"key:", name.as_bytes(), &n.to_le_bytes()]).to_bytes())
}

// ----------------------------------------------------------------- addresses

pub fn config() -> Pubkey {
    pda(&[b"config"], &manager_id())
}
pub fn outbox_rl() -> Pubkey {
    pda(&[b"outbox_rate_limit"], &manager_id())
}
pub fn inbox_rl(chain: u16) -> Pubkey {
    pda(&[b"inbox_rate_limit", &chain.to_be_bytes()], &manager_id())
}
pub fn peer(chain: u16) -> Pubkey {
    pda(&[b"peer", &chain.to_be_bytes()], &manager_id())
}
pub fn registered_transceiver(program: &Pubkey) -> Pubkey {
    pda(&[b"registered_transceiver", program.as_ref()], &manager_id())
}
pub fn token_authority() -> Pubkey {
    pda(&[b"token_authority"], &manager_id())
}
pub fn upgrade_lock() -> Pubkey {
    pda(&[b"upgrade_lock"], &manager_id())
}
pub fn lut_pda() -> Pubkey {
    pda(&[b"lut"], &manager_id())
}
pub fn lut_authority() -> Pubkey {
    pda(&[b"lut_authority"], &manager_id())
}
pub fn inbox_item(from_chain: u16, manager_msg: &[u8]) -> Pubkey {
    let h = keccak::hashv(&[&from_chain.to_be_bytes(), manager_msg]);
    pda(&[b"inbox_item", h.as_ref()], &manager_id())
}
pub fn session_authority(owner: &Pubkey, a: &TransferArgs) -> Pubkey {
    let h = keccak::hashv(&[
        &a.amount.to_be_bytes(),
        &a.chain.to_be_bytes(),
        &a.recipient,
        &[a.should_queue as u8],
    ]);
    pda(&[b"session_authority", owner.as_ref(), h.as_ref()], &manager_id())
}
pub fn program_data(program: &Pubkey) -> Pubkey {
    pda(&[program.as_ref()], &bpf_loader_upgradeable::id())
}
pub fn transceiver_peer(program: &Pubkey, chain: u16) -> Pubkey {
    pda(&[b"transceiver_peer", &chain.to_be_bytes()], program)
}
pub fn transceiver_message(program: &Pubkey, chain: u16, id: &[u8; 32]) -> Pubkey {
    pda(&[b"transceiver_message", &chain.to_be_bytes(), id], program)
}
pub fn emitter(program: &Pubkey) -> Pubkey {
    pda(&[b"emitter"], program)
}
pub fn wh_message(program: &Pubkey, item: &Pubkey) -> Pubkey {
    pda(&[b"message", item.as_ref()], program)
}
pub fn outbox_item_signer(program: &Pubkey) -> Pubkey {
    pda(&[b"outbox_item_signer"], program)
}
pub fn bridge() -> Pubkey {
    pda(&[b"Bridge"], &core_bridge_id())
}
pub fn fee_collector() -> Pubkey {
    pda(&[b"fee_collector"], &core_bridge_id())
}
pub fn sequence(emitter: &Pubkey) -> Pubkey {
    pda(&[b"Sequence", emitter.as_ref()], &core_bridge_id())
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, token_program: &Pubkey) -> Pubkey {
    pda(
        &[owner.as_ref(), token_program.as_ref(), mint.as_ref()],
        &spl_associated_token_account::id(),
    )
}
pub fn governance_pda() -> Pubkey {
    pda(&[b"governance"], &governance_id())
}
pub fn replay_pda(chain: u16, emitter: &[u8; 32], seq: u64) -> Pubkey {
    pda(
        &[b"replay", &chain.to_be_bytes(), emitter, &seq.to_be_bytes()],
        &governance_id(),
    )
}
pub fn q_instance() -> Pubkey {
    pda(&[b"instance"], &quoter_id())
}
pub fn q_chain(chain: u16) -> Pubkey {
    pda(&[b"registered_chain", &chain.to_be_bytes()], &quoter_id())
}
pub fn q_ntt(program: &Pubkey) -> Pubkey {
    pda(&[b"registered_ntt", program.as_ref()], &quoter_id())
}
pub fn q_request(item: &Pubkey) -> Pubkey {
    pda(&[b"relay_request", item.as_ref()], &quoter_id())
}
pub fn hook_metas(mint: &Pubkey) -> Pubkey {
    pda(&[b"extra-account-metas", mint.as_ref()], &hook_id())
}
pub fn hook_counter() -> Pubkey {
    pda(&[b"counter"], &hook_id())
}
pub fn hook_dummy(owner: &Pubkey) -> Pubkey {
    pda(&[b"dummy_account", owner.as_ref()], &hook_id())
}

// ------------------------------------------------------------------ builders

fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

fn ix(program: Pubkey, name: &str, args: &[&[u8]], accounts: Vec<AccountMeta>) -> Instruction {
    let mut data = disc(name).to_vec();
    for a in args {
        data.extend_from_slice(a);
    }
    Instruction {
        program_id: program,
        accounts,
        data,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TransferArgs {
    pub amount: u64,
    pub chain: u16,
    pub recipient: [u8; 32],
    pub should_queue: bool,
}

impl TransferArgs {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.amount.to_le_bytes().to_vec();
        v.extend_from_slice(&self.chain.to_le_bytes());
        v.extend_from_slice(&self.recipient);
        v.push(self.should_queue as u8);
        v
    }
}

/// What the ledger's token looks like; enough to assemble token instructions.
#[derive(Clone, Debug)]
pub struct Tok {
    pub mint: Pubkey,
    pub program: Pubkey,
    pub decimals: u8,
    pub hook: bool,
}

impl Tok {
    pub fn custody(&self) -> Pubkey {
        ata(&token_authority(), &self.mint, &self.program)
    }
    pub fn ata(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.mint, &self.program)
    }
    pub fn hook_accounts(&self, from_owner: &Pubkey) -> Vec<AccountMeta> {
        if !self.hook {
            return vec![];
        }
        vec![
            r(hook_id()),
            r(hook_metas(&self.mint)),
            r(hook_dummy(from_owner)),
            w(hook_counter()),
        ]
    }
}

pub fn initialize(
    payer: Pubkey,
    deployer: Pubkey,
    t: &Tok,
    chain: u16,
    limit: u64,
    burning: bool,
) -> Instruction {
    ix(
        manager_id(),
        "initialize",
        &[&chain.to_le_bytes(), &limit.to_le_bytes(), &[burning as u8]],
        vec![
            ws(payer),
            rs(deployer),
            r(program_data(&manager_id())),
            w(config()),
            r(t.mint),
            w(outbox_rl()),
            r(token_authority()),
            w(t.custody()),
            r(t.program),
            r(spl_associated_token_account::id()),
            r(bpf_loader_upgradeable::id()),
            r(system_program::id()),
        ],
    )
}

pub fn wormhole_accounts(emitter_program: &Pubkey) -> Vec<AccountMeta> {
    vec![
        w(bridge()),
        w(fee_collector()),
        w(sequence(&emitter(emitter_program))),
        r(core_bridge_id()),
        r(system_program::id()),
        r(sysvar::clock::id()),
        r(sysvar::rent::id()),
    ]
}

pub fn lut_address(recent_slot: u64) -> Pubkey {
    pda(
        &[lut_authority().as_ref(), &recent_slot.to_le_bytes()],
        &solana_address_lookup_table_program::id(),
    )
}

pub fn initialize_lut(payer: Pubkey, t: &Tok, recent_slot: u64, transceiver: &Pubkey) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        r(lut_authority()),
        w(lut_address(recent_slot)),
        w(lut_pda()),
        r(solana_address_lookup_table_program::id()),
        r(system_program::id()),
        r(config()),
        r(t.custody()),
        r(t.program),
        r(t.mint),
        r(token_authority()),
        r(outbox_rl()),
    ];
    accounts.extend(wormhole_accounts(transceiver));
    ix(
        manager_id(),
        "initialize_lut",
        &[&recent_slot.to_le_bytes()],
        accounts,
    )
}

#[allow(clippy::too_many_arguments)]
pub fn transfer(
    burning: bool,
    payer: Pubkey,
    t: &Tok,
    from: Pubkey,
    from_owner: Pubkey,
    outbox_item: Pubkey,
    a: &TransferArgs,
) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        r(config()),
        w(t.mint),
        w(from),
        r(t.program),
        ws(outbox_item),
        w(outbox_rl()),
        w(t.custody()),
        r(system_program::id()),
        w(inbox_rl(a.chain)),
        r(peer(a.chain)),
        r(session_authority(&from_owner, a)),
    ];
    if burning {
        accounts.push(r(token_authority()));
    }
    accounts.extend(t.hook_accounts(&from_owner));
    ix(
        manager_id(),
        if burning { "transfer_burn" } else { "transfer_lock" },
        &[&a.bytes()],
        accounts,
    )
}

pub fn approve(t: &Tok, from: Pubkey, delegate: Pubkey, owner: Pubkey, amount: u64) -> Instruction {
    // TokenInstruction::Approve
    let mut data = vec![4u8];
    data.extend_from_slice(&amount.to_le_bytes());
    Instruction {
        program_id: t.program,
        accounts: vec![w(from), r(delegate), rs(owner)],
        data,
    }
}

pub fn create_ata(t: &Tok, payer: Pubkey, owner: Pubkey) -> Instruction {
    // AssociatedTokenAccountInstruction::CreateIdempotent
    Instruction {
        program_id: spl_associated_token_account::id(),
        accounts: vec![
            ws(payer),
            w(t.ata(&owner)),
            r(owner),
            r(t.mint),
            r(system_program::id()),
            r(t.program),
        ],
        data: vec![1],
    }
}

pub fn token_transfer(
    t: &Tok,
    from: Pubkey,
    to: Pubkey,
    owner: Pubkey,
    amount: u64,
) -> Instruction {
    // TransferChecked
    let mut data = vec![12u8];
    data.extend_from_slice(&amount.to_le_bytes());
    data.push(t.decimals);
    let mut accounts = vec![w(from), r(t.mint), w(to), rs(owner)];
    accounts.extend(t.hook_accounts(&owner));
    if t.hook {
        // resolve order for direct calls: extra metas, then program + validation
        accounts = vec![
            w(from),
            r(t.mint),
            w(to),
            rs(owner),
            r(hook_dummy(&owner)),
            w(hook_counter()),
            r(hook_id()),
            r(hook_metas(&t.mint)),
        ];
    }
    Instruction {
        program_id: t.program,
        accounts,
        data,
    }
}

pub fn release_outbound(
    transceiver: &Pubkey,
    payer: Pubkey,
    item: Pubkey,
    revert_on_delay: bool,
) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        r(config()),
        w(item),
        r(registered_transceiver(transceiver)),
        w(wh_message(transceiver, &item)),
        r(emitter(transceiver)),
    ];
    accounts.extend(wormhole_accounts(transceiver));
    if *transceiver == transceiver_id() {
        accounts.push(r(manager_id()));
        accounts.push(r(outbox_item_signer(transceiver)));
    }
    ix(
        *transceiver,
        "release_wormhole_outbound",
        &[&[revert_on_delay as u8]],
        accounts,
    )
}

/// The harness transceiver's own outbound release.
pub fn probe_mark(probe: &Pubkey, item: Pubkey) -> Instruction {
    Instruction {
        program_id: *probe,
        accounts: vec![
            r(outbox_item_signer(probe)),
            r(config()),
            w(item),
            r(registered_transceiver(probe)),
            r(manager_id()),
        ],
        data: vec![2],
    }
}

pub fn mark_released_direct(signer: Pubkey, signed: bool, item: Pubkey, reg: Pubkey) -> Instruction {
    ix(
        manager_id(),
        "mark_outbox_item_as_released",
        &[],
        vec![
            if signed { rs(signer) } else { r(signer) },
            r(config()),
            w(item),
            r(reg),
        ],
    )
}

pub fn receive(
    transceiver: &Pubkey,
    payer: Pubkey,
    vaa: Pubkey,
    from_chain: u16,
    id: &[u8; 32],
) -> Instruction {
    ix(
        *transceiver,
        "receive_wormhole_message",
        &[],
        vec![
            ws(payer),
            r(config()),
            r(transceiver_peer(transceiver, from_chain)),
            r(vaa),
            w(transceiver_message(transceiver, from_chain, id)),
            r(system_program::id()),
        ],
    )
}

pub fn redeem(
    payer: Pubkey,
    t: &Tok,
    transceiver: &Pubkey,
    tmsg: Pubkey,
    from_chain: u16,
    item: Pubkey,
) -> Instruction {
    ix(
        manager_id(),
        "redeem",
        &[],
        vec![
            ws(payer),
            r(config()),
            r(peer(from_chain)),
            r(tmsg),
            r(registered_transceiver(transceiver)),
            r(t.mint),
            w(item),
            w(inbox_rl(from_chain)),
            w(outbox_rl()),
            r(system_program::id()),
        ],
    )
}

pub fn release_inbound(
    burning: bool,
    payer: Pubkey,
    t: &Tok,
    item: Pubkey,
    recipient: Pubkey,
    revert_on_delay: bool,
) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        r(config()),
        w(item),
        w(recipient),
        r(token_authority()),
        w(t.mint),
        r(t.program),
        w(t.custody()),
    ];
    accounts.extend(t.hook_accounts(&token_authority()));
    ix(
        manager_id(),
        if burning {
            "release_inbound_mint"
        } else {
            "release_inbound_unlock"
        },
        &[&[revert_on_delay as u8]],
        accounts,
    )
}

pub fn set_wormhole_peer(
    program: &Pubkey,
    owner: Pubkey,
    payer: Pubkey,
    chain: u16,
    address: &[u8; 32],
) -> Instruction {
    ix(
        *program,
        "set_wormhole_peer",
        &[&chain.to_le_bytes(), address],
        vec![
            r(config()),
            rs(owner),
            ws(payer),
            w(transceiver_peer(program, chain)),
            r(system_program::id()),
        ],
    )
}

pub fn broadcast_id(program: &Pubkey, payer: Pubkey, mint: Pubkey, message: Pubkey) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        r(config()),
        r(mint),
        ws(message),
        r(emitter(program)),
    ];
    accounts.extend(wormhole_accounts(program));
    ix(*program, "broadcast_wormhole_id", &[], accounts)
}

pub fn broadcast_peer(program: &Pubkey, payer: Pubkey, chain: u16, message: Pubkey) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        r(config()),
        r(transceiver_peer(program, chain)),
        ws(message),
        r(emitter(program)),
    ];
    accounts.extend(wormhole_accounts(program));
    ix(
        *program,
        "broadcast_wormhole_peer",
        &[&chain.to_le_bytes()],
        accounts,
    )
}

pub fn set_peer(
    payer: Pubkey,
    owner: Pubkey,
    chain: u16,
    address: &[u8; 32],
    limit: u64,
    decimals: u8,
) -> Instruction {
    ix(
        manager_id(),
        "set_peer",
        &[
            &chain.to_le_bytes(),
            address,
            &limit.to_le_bytes(),
            &[decimals],
        ],
        vec![
            ws(payer),
            rs(owner),
            r(config()),
            w(peer(chain)),
            w(inbox_rl(chain)),
            r(system_program::id()),
        ],
    )
}

pub fn register_transceiver(owner: Pubkey, payer: Pubkey, program: &Pubkey) -> Instruction {
    ix(
        manager_id(),
        "register_transceiver",
        &[],
        vec![
            w(config()),
            rs(owner),
            ws(payer),
            r(*program),
            w(registered_transceiver(program)),
            r(system_program::id()),
        ],
    )
}

pub fn set_outbound_limit(owner: Pubkey, limit: u64) -> Instruction {
    ix(
        manager_id(),
        "set_outbound_limit",
        &[&limit.to_le_bytes()],
        vec![r(config()), rs(owner), w(outbox_rl())],
    )
}

pub fn set_inbound_limit(owner: Pubkey, chain: u16, limit: u64) -> Instruction {
    ix(
        manager_id(),
        "set_inbound_limit",
        &[&limit.to_le_bytes(), &chain.to_le_bytes()],
        vec![r(config()), rs(owner), w(inbox_rl(chain))],
    )
}

pub fn set_paused(owner: Pubkey, paused: bool) -> Instruction {
    ix(
        manager_id(),
        "set_paused",
        &[&[paused as u8]],
        vec![rs(owner), w(config())],
    )
}

pub fn transfer_ownership(owner: Pubkey, new_owner: Pubkey, one_step: bool) -> Instruction {
    ix(
        manager_id(),
        if one_step {
            "transfer_ownership_one_step_unchecked"
        } else {
            "transfer_ownership"
        },
        &[],
        vec![
            w(config()),
            rs(owner),
            r(new_owner),
            r(upgrade_lock()),
            w(program_data(&manager_id())),
            r(bpf_loader_upgradeable::id()),
        ],
    )
}

pub fn claim_ownership(new_owner: Pubkey) -> Instruction {
    ix(
        manager_id(),
        "claim_ownership",
        &[],
        vec![
            w(config()),
            r(upgrade_lock()),
            rs(new_owner),
            w(program_data(&manager_id())),
            r(bpf_loader_upgradeable::id()),
        ],
    )
}

// quoter

pub fn q_initialize(owner: Pubkey, fee_recipient: Pubkey) -> Instruction {
    ix(
        quoter_id(),
        "initialize",
        &[],
        vec![
            ws(owner),
            w(q_instance()),
            r(fee_recipient),
            w(program_data(&quoter_id())),
            r(system_program::id()),
        ],
    )
}
pub fn q_set_fee_recipient(owner: Pubkey, fee_recipient: Pubkey) -> Instruction {
    ix(
        quoter_id(),
        "set_fee_recipient",
        &[],
        vec![rs(owner), w(q_instance()), r(fee_recipient)],
    )
}
pub fn q_set_assistant(owner: Pubkey, assistant: Option<Pubkey>) -> Instruction {
    ix(
        quoter_id(),
        "set_assistant",
        &[],
        vec![
            rs(owner),
            w(q_instance()),
            r(assistant.unwrap_or(quoter_id())),
        ],
    )
}
pub fn q_register_chain(authority: Pubkey, chain: u16) -> Instruction {
    ix(
        quoter_id(),
        "register_chain",
        &[&chain.to_le_bytes()],
        vec![
            ws(authority),
            r(q_instance()),
            w(q_chain(chain)),
            r(system_program::id()),
        ],
    )
}
pub fn q_register_ntt(authority: Pubkey, program: Pubkey, index: u8, gas_cost: u32) -> Instruction {
    ix(
        quoter_id(),
        "register_ntt",
        &[program.as_ref(), &[index], &gas_cost.to_le_bytes()],
        vec![
            ws(authority),
            r(q_instance()),
            w(q_ntt(&program)),
            r(system_program::id()),
        ],
    )
}
pub fn q_deregister_ntt(authority: Pubkey, program: Pubkey) -> Instruction {
    ix(
        quoter_id(),
        "deregister_ntt",
        &[program.as_ref()],
        vec![
            ws(authority),
            r(q_instance()),
            w(q_ntt(&program)),
            r(system_program::id()),
        ],
    )
}
pub fn q_update_sol_price(authority: Pubkey, price: u64) -> Instruction {
    ix(
        quoter_id(),
        "update_sol_price",
        &[&price.to_le_bytes()],
        vec![rs(authority), w(q_instance())],
    )
}
pub fn q_update_chain_prices(authority: Pubkey, chain: u16, native: u64, gas: u64) -> Instruction {
    ix(
        quoter_id(),
        "update_chain_prices",
        &[&native.to_le_bytes(), &gas.to_le_bytes()],
        vec![rs(authority), r(q_instance()), w(q_chain(chain))],
    )
}
pub fn q_update_chain_params(
    authority: Pubkey,
    chain: u16,
    max_dropoff: u64,
    base: u64,
) -> Instruction {
    ix(
        quoter_id(),
        "update_chain_params",
        &[&max_dropoff.to_le_bytes(), &base.to_le_bytes()],
        vec![rs(authority), r(q_instance()), w(q_chain(chain))],
    )
}
pub fn q_request_relay(
    payer: Pubkey,
    chain: u16,
    item: Pubkey,
    gas_dropoff: u64,
    max_fee: u64,
) -> Instruction {
    ix(
        quoter_id(),
        "request_relay",
        &[&gas_dropoff.to_le_bytes(), &max_fee.to_le_bytes()],
        vec![
            ws(payer),
            r(q_instance()),
            r(q_chain(chain)),
            r(q_ntt(&manager_id())),
            r(item),
            w(q_request(&item)),
            r(system_program::id()),
        ],
    )
}
pub fn q_close_relay(authority: Pubkey, fee_recipient: Pubkey, item: &Pubkey) -> Instruction {
    ix(
        quoter_id(),
        "close_relay",
        &[],
        vec![
            rs(authority),
            r(q_instance()),
            w(fee_recipient),
            w(q_request(item)),
            r(system_program::id()),
        ],
    )
}

// governance

pub fn gov_message(
    gov_program: &Pubkey,
    module: &[u8; 32],
    action: u8,
    chain: u16,
    ix: &Instruction,
) -> Vec<u8> {
    let mut v = module.to_vec();
    v.push(action);
    v.extend_from_slice(&chain.to_be_bytes());
    v.extend_from_slice(gov_program.as_ref());
    v.extend_from_slice(ix.program_id.as_ref());
    v.extend_from_slice(&(ix.accounts.len() as u16).to_be_bytes());
    for a in &ix.accounts {
        v.extend_from_slice(a.pubkey.as_ref());
        v.push(a.is_signer as u8);
        v.push(a.is_writable as u8);
    }
    v.extend_from_slice(&(ix.data.len() as u16).to_be_bytes());
    v.extend_from_slice(&ix.data);
    v
}

pub fn gov_module() -> [u8; 32] {
    let s = b"GeneralPurposeGovernance";
    let mut m = [0u8; 32];
    m[32 - s.len()..].copy_from_slice(s);
    m
}

pub fn sentinel(s: &[u8]) -> Pubkey {
    let mut b = [0u8; 32];
    b[..s.len()].copy_from_slice(s);
    Pubkey::new_from_array(b)
}

pub fn governance(
    payer: Pubkey,
    vaa: Pubkey,
    program: Pubkey,
    replay: Pubkey,
    remaining: Vec<AccountMeta>,
) -> Instruction {
    let mut accounts = vec![
        ws(payer),
        w(governance_pda()),
        r(vaa),
        r(program),
        w(replay),
        r(system_program::id()),
    ];
    accounts.extend(remaining);
    ix(governance_id(), "governance", &[], accounts)
}

// ------------------------------------------------------------------- decoders

pub struct Rd<'a>(pub &'a [u8]);

impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> Option<i64> {
        Some(i64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u128(&mut self) -> Option<u128> {
        Some(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    pub fn b32(&mut self) -> Option<[u8; 32]> {
        Some(self.take(32)?.try_into().unwrap())
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.b32()?))
    }
    pub fn disc(&mut self, name: &str) -> Option<()> {
        (self.take(8)? == acc_disc(name)).then_some(())
    }
    // big-endian, for wire messages
    pub fn u16be(&mut self) -> Option<u16> {
        Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u64be(&mut self) -> Option<u64> {
        Some(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Config {
    pub owner: Pubkey,
    pub pending_owner: Option<Pubkey>,
    pub mint: Pubkey,
    pub token_program: Pubkey,
    pub burning: bool,
    pub chain_id: u16,
    pub next_id: u8,
    pub threshold: u8,
    pub enabled: u128,
    pub paused: bool,
    pub custody: Pubkey,
}

impl Config {
    pub fn decode(d: &[u8]) -> Option<Config> {
        let mut r = Rd(d);
        r.disc("Config")?;
        r.u8()?;
        Some(Config {
            owner: r.key()?,
            pending_owner: if r.u8()? == 1 { Some(r.key()?) } else { None },
            mint: r.key()?,
            token_program: r.key()?,
            burning: r.u8()? == 1,
            chain_id: r.u16()?,
            next_id: r.u8()?,
            threshold: r.u8()?,
            enabled: r.u128()?,
            paused: r.u8()? != 0,
            custody: r.key()?,
        })
    }
    /// Offset of `threshold` in the account data (for configurations no
    /// instruction can reach yet).
    pub fn threshold_offset(d: &[u8]) -> usize {
        let some = d[8 + 1 + 32] == 1;
        8 + 1 + 32 + 1 + if some { 32 } else { 0 } + 32 + 32 + 1 + 2 + 1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RateLimit {
    pub limit: u64,
    pub cap: u64,
    pub ts: i64,
}

pub const DAY: i64 = 86400;

impl RateLimit {
    fn read(r: &mut Rd) -> Option<RateLimit> {
        Some(RateLimit {
            limit: r.u64()?,
            cap: r.u64()?,
            ts: r.i64()?,
        })
    }
    pub fn decode_outbox(d: &[u8]) -> Option<RateLimit> {
        let mut r = Rd(d);
        r.disc("OutboxRateLimit")?;
        Self::read(&mut r)
    }
    pub fn decode_inbox(d: &[u8]) -> Option<RateLimit> {
        let mut r = Rd(d);
        r.disc("InboxRateLimit")?;
        r.u8()?;
        Self::read(&mut r)
    }
    /// Documented: capacity refills linearly, `limit` per 24 hours, up to `limit`.
    pub fn capacity(&self, now: i64) -> u64 {
        let dt = (now - self.ts).max(0) as u128;
        (self.cap as u128 + self.limit as u128 * dt / DAY as u128).min(self.limit as u128) as u64
    }
    pub fn fresh(limit: u64) -> RateLimit {
        RateLimit {
            limit,
            cap: limit,
            ts: 0,
        }
    }
    pub fn consumed(&self, now: i64, amount: u64) -> RateLimit {
        RateLimit {
            limit: self.limit,
            cap: self.capacity(now) - amount,
            ts: now,
        }
    }
    pub fn refilled(&self, now: i64, amount: u64) -> RateLimit {
        RateLimit {
            limit: self.limit,
            cap: self.capacity(now).saturating_add(amount).min(self.limit),
            ts: now,
        }
    }
    pub fn with_limit(&self, now: i64, limit: u64) -> RateLimit {
        let c = self.capacity(now);
        let cap = if limit >= self.limit {
            c.saturating_add(limit - self.limit)
        } else {
            c.saturating_sub(self.limit - limit)
        };
        RateLimit {
            limit,
            cap: cap.min(limit),
            ts: now,
        }
    }
    /// Same limit and same capacity at every instant from `now` on.
    pub fn same(&self, o: &RateLimit, now: i64) -> bool {
        if self.limit != o.limit {
            return false;
        }
        if self == o {
            return true;
        }
        [0, 1, 7, 600, 3599, 43200, DAY - 1, DAY]
            .iter()
            .all(|d| self.capacity(now + d) == o.capacity(now + d))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Peer {
    pub address: [u8; 32],
    pub decimals: u8,
}
impl Peer {
    pub fn decode(d: &[u8]) -> Option<Peer> {
        let mut r = Rd(d);
        r.disc("NttManagerPeer")?;
        r.u8()?;
        Some(Peer {
            address: r.b32()?,
            decimals: r.u8()?,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OutboxItem {
    pub amount: u64,
    pub decimals: u8,
    pub sender: Pubkey,
    pub chain: u16,
    pub recipient_manager: [u8; 32],
    pub recipient: [u8; 32],
    pub release_ts: i64,
    pub released: u128,
}
impl OutboxItem {
    pub fn decode(d: &[u8]) -> Option<OutboxItem> {
        let mut r = Rd(d);
        r.disc("OutboxItem")?;
        Some(OutboxItem {
            amount: r.u64()?,
            decimals: r.u8()?,
            sender: r.key()?,
            chain: r.u16()?,
            recipient_manager: r.b32()?,
            recipient: r.b32()?,
            release_ts: r.i64()?,
            released: r.u128()?,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    NotApproved,
    After(i64),
    Released,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct InboxItem {
    pub init: bool,
    pub amount: u64,
    pub recipient: Pubkey,
    pub votes: u128,
    pub status: Status,
}
impl InboxItem {
    pub fn decode(d: &[u8]) -> Option<InboxItem> {
        let mut r = Rd(d);
        r.disc("InboxItem")?;
        let init = r.u8()? != 0;
        r.u8()?;
        Some(InboxItem {
            init,
            amount: r.u64()?,
            recipient: r.key()?,
            votes: r.u128()?,
            status: match r.u8()? {
                0 => Status::NotApproved,
                1 => Status::After(r.i64()?),
                2 => Status::Released,
                _ => return None,
            },
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Registered {
    pub id: u8,
    pub address: Pubkey,
}
impl Registered {
    pub fn decode(d: &[u8]) -> Option<Registered> {
        let mut r = Rd(d);
        r.disc("RegisteredTransceiver")?;
        r.u8()?;
        Some(Registered {
            id: r.u8()?,
            address: r.key()?,
        })
    }
}

pub fn decode_transceiver_peer(d: &[u8]) -> Option<[u8; 32]> {
    let mut r = Rd(d);
    r.disc("TransceiverPeer")?;
    r.u8()?;
    r.b32()
}

/// A native-token-transfer message, in the wire format of docs/Transceiver.md
/// and docs/NttManager.md.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub source_manager: [u8; 32],
    pub recipient_manager: [u8; 32],
    pub id: [u8; 32],
    pub sender: [u8; 32],
    pub decimals: u8,
    pub amount: u64,
    pub source_token: [u8; 32],
    pub to: [u8; 32],
    pub to_chain: u16,
}

impl Msg {
    pub fn ntt(&self) -> Vec<u8> {
        let mut v = vec![0x99, 0x4E, 0x54, 0x54];
        v.push(self.decimals);
        v.extend_from_slice(&self.amount.to_be_bytes());
        v.extend_from_slice(&self.source_token);
        v.extend_from_slice(&self.to);
        v.extend_from_slice(&self.to_chain.to_be_bytes());
        v
    }
    pub fn manager_msg(&self) -> Vec<u8> {
        let p = self.ntt();
        let mut v = self.id.to_vec();
        v.extend_from_slice(&self.sender);
        v.extend_from_slice(&(p.len() as u16).to_be_bytes());
        v.extend_from_slice(&p);
        v
    }
    pub fn wire(&self) -> Vec<u8> {
        self.wire_with(&[])
    }
    pub fn wire_with(&self, transceiver_payload: &[u8]) -> Vec<u8> {
        let m = self.manager_msg();
        let mut v = vec![0x99, 0x45, 0xFF, 0x10];
        v.extend_from_slice(&self.source_manager);
        v.extend_from_slice(&self.recipient_manager);
        v.extend_from_slice(&(m.len() as u16).to_be_bytes());
        v.extend_from_slice(&m);
        v.extend_from_slice(&(transceiver_payload.len() as u16).to_be_bytes());
        v.extend_from_slice(transceiver_payload);
        v
    }
    pub fn parse(d: &[u8]) -> Option<Msg> {
        let mut r = Rd(d);
        (r.take(4)? == [0x99, 0x45, 0xFF, 0x10]).then_some(())?;
        let source_manager = r.b32()?;
        let recipient_manager = r.b32()?;
        let mlen = r.u16be()? as usize;
        let m = r.take(mlen)?;
        let tlen = r.u16be()? as usize;
        r.take(tlen)?;
        if !r.0.is_empty() {
            return None;
        }
        let mut r = Rd(m);
        let id = r.b32()?;
        let sender = r.b32()?;
        let plen = r.u16be()? as usize;
        let p = r.take(plen)?;
        if !r.0.is_empty() {
            return None;
        }
        let mut r = Rd(p);
        (r.take(4)? == [0x99, 0x4E, 0x54, 0x54]).then_some(())?;
        let decimals = r.u8()?;
        let amount = r.u64be()?;
        let source_token = r.b32()?;
        let to = r.b32()?;
        let to_chain = r.u16be()?;
        Some(Msg {
            source_manager,
            recipient_manager,
            id,
            sender,
            decimals,
            amount,
            source_token,
            to,
            to_chain,
        })
    }
    /// The account a transceiver program writes once it has validated it.
    pub fn validated_account(&self, from_chain: u16) -> Vec<u8> {
        let mut v = acc_disc("ValidatedTransceiverMessage").to_vec();
        v.extend_from_slice(&from_chain.to_le_bytes());
        v.extend_from_slice(&self.source_manager);
        v.extend_from_slice(&self.recipient_manager);
        v.extend_from_slice(&self.id);
        v.extend_from_slice(&self.sender);
        v.extend_from_slice(&self.amount.to_le_bytes());
        v.push(self.decimals);
        v.extend_from_slice(&self.source_token);
        v.extend_from_slice(&self.to_chain.to_le_bytes());
        v.extend_from_slice(&self.to);
        v
    }
    pub fn decode_validated(d: &[u8]) -> Option<(u16, Msg)> {
        let mut r = Rd(d);
        r.disc("ValidatedTransceiverMessage")?;
        let from = r.u16()?;
        let source_manager = r.b32()?;
        let recipient_manager = r.b32()?;
        let id = r.b32()?;
        let sender = r.b32()?;
        let amount = r.u64()?;
        let decimals = r.u8()?;
        let source_token = r.b32()?;
        let to_chain = r.u16()?;
        let to = r.b32()?;
        Some((
            from,
            Msg {
                source_manager,
                recipient_manager,
                id,
                sender,
                decimals,
                amount,
                source_token,
                to,
                to_chain,
            },
        ))
    }
}

/// A core-bridge message or VAA account.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Posted {
    pub finality: u8,
    pub sequence: u64,
    pub emitter_chain: u16,
    pub emitter: [u8; 32],
    pub payload: Vec<u8>,
}

impl Posted {
    pub fn encode_vaa(&self, timestamp: u32) -> Vec<u8> {
        let mut v = b"vaa".to_vec();
        v.push(1); // version
        v.push(self.finality);
        v.extend_from_slice(&timestamp.to_le_bytes());
        v.extend_from_slice(&[0u8; 32]); // signature set
        v.extend_from_slice(&timestamp.to_le_bytes());
        v.extend_from_slice(&0u32.to_le_bytes()); // nonce / batch id
        v.extend_from_slice(&self.sequence.to_le_bytes());
        v.extend_from_slice(&self.emitter_chain.to_le_bytes());
        v.extend_from_slice(&self.emitter);
        v.extend_from_slice(&(self.payload.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.payload);
        v
    }
    pub fn decode(d: &[u8]) -> Option<Posted> {
        let mut r = Rd(d);
        let p = r.take(3)?;
        if p != b"msg" && p != b"vaa" {
            return None;
        }
        r.u8()?;
        let finality = r.u8()?;
        r.u32()?;
        r.b32()?;
        r.u32()?;
        r.u32()?;
        let sequence = r.u64()?;
        let emitter_chain = r.u16()?;
        let emitter = r.b32()?;
        let n = r.u32()? as usize;
        let payload = r.take(n)?.to_vec();
        Some(Posted {
            finality,
            sequence,
            emitter_chain,
            emitter,
            payload,
        })
    }
}

/// An SPL token account (base layout shared by Token and Token-2022).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokenAcc {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
}
impl TokenAcc {
    pub fn decode(d: &[u8]) -> Option<TokenAcc> {
        if d.len() < 165 || d[108] == 0 {
            return None;
        }
        let mut r = Rd(d);
        let mint = r.key()?;
        let owner = r.key()?;
        let amount = r.u64()?;
        let has = r.u32()?;
        let del = r.key()?;
        r.take(1 + 4 + 8)?; // state, is_native
        let delegated = r.u64()?;
        Some(TokenAcc {
            mint,
            owner,
            amount,
            delegate: (has == 1).then_some(del),
            delegated,
        })
    }
}
pub fn mint_supply(d: &[u8]) -> Option<u64> {
    let mut r = Rd(d);
    r.take(36)?;
    r.u64()
}

/// Deployment record of a program an attacker deployed himself.
pub fn foreign_program_data() -> Pubkey {
    Pubkey::new_from_array(solana_program::keccak::hashv(&[b"foreign-program-data"]).0)
}

pub fn upgrade_authority(d: &[u8]) -> Option<Option<Pubkey>> {
    // UpgradeableLoaderState::ProgramData { slot, upgrade_authority_address }
    let mut r = Rd(d);
    if r.u32()? != 3 {
        return None;
    }
    r.u64()?;
    Some(if r.u8()? == 1 { Some(r.key()?) } else { None })
}

pub fn program_data_bytes(authority: Option<Pubkey>) -> Vec<u8> {
    let mut v = 3u32.to_le_bytes().to_vec();
    v.extend_from_slice(&0u64.to_le_bytes());
    match authority {
        Some(a) => {
            v.push(1);
            v.extend_from_slice(a.as_ref());
        }
        None => {
            v.push(0);
            v.extend_from_slice(&[0u8; 32]);
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct QInstance {
    pub owner: Pubkey,
    pub assistant: Pubkey,
    pub fee_recipient: Pubkey,
    pub sol_price: u64,
}
impl QInstance {
    pub fn decode(d: &[u8]) -> Option<QInstance> {
        let mut r = Rd(d);
        r.disc("Instance")?;
        Some(QInstance {
            owner: r.key()?,
            assistant: r.key()?,
            fee_recipient: r.key()?,
            sol_price: r.u64()?,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct QChain {
    pub max_dropoff: u64,
    pub base: u64,
    pub native: u64,
    pub gas: u64,
}
impl QChain {
    pub fn decode(d: &[u8]) -> Option<QChain> {
        let mut r = Rd(d);
        r.disc("RegisteredChain")?;
        r.u8()?;
        Some(QChain {
            max_dropoff: r.u64()?,
            base: r.u64()?,
            native: r.u64()?,
            gas: r.u64()?,
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct QNtt {
    pub index: u8,
    pub gas_cost: u32,
}
impl QNtt {
    pub fn decode(d: &[u8]) -> Option<QNtt> {
        let mut r = Rd(d);
        r.disc("RegisteredNtt")?;
        r.u8()?;
        Some(QNtt {
            index: r.u8()?,
            gas_cost: r.u32()?,
        })
    }
}
pub fn decode_relay_request(d: &[u8]) -> Option<u64> {
    let mut r = Rd(d);
    r.disc("RelayRequest")?;
    r.u64()
}
