//! A deterministic single-ledger Solana runtime.
//!
//! Real code: `InvokeContext` (privilege checks, CPI stack, account ownership
//! rules), the System, BPF-loader, address-lookup-table, SPL token, Token-2022
//! and ATA programs, and the core-bridge ELF under rbpf. Stubbed: consensus,
//! signature verification (a transaction carries the set of keys that signed
//! it), fees, and the scheduler, which is the simulator's.
//!
//! Native programs run through an adapter modelled on solana-program-test's,
//! but strict: a write a program is not entitled to make fails the
//! transaction, and a failed CPI aborts the whole transaction, as on chain.

use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::Arc,
};

use solana_bpf_loader_program::serialization::serialize_parameters;
use solana_program_runtime::{
    compute_budget::ComputeBudget,
    declare_process_instruction,
    invoke_context::InvokeContext,
    loaded_programs::{
        LoadProgramMetrics, LoadedProgram, LoadedProgramsForTxBatch, ProgramRuntimeEnvironments,
    },
    log_collector::LogCollector,
    sysvar_cache::SysvarCache,
    timings::ExecuteTimings,
};
use solana_sdk::{
    account::{Account, AccountSharedData, ReadableAccount, WritableAccount},
    account_info::AccountInfo,
    bpf_loader, bpf_loader_upgradeable,
    clock::Clock,
    entrypoint::{deserialize, ProgramResult, SUCCESS},
    epoch_schedule::EpochSchedule,
    feature_set::FeatureSet,
    hash::Hash,
    instruction::{Instruction, InstructionError},
    native_loader,
    program_error::{ProgramError, UNSUPPORTED_SYSVAR},
    pubkey::Pubkey,
    rent::Rent,
    slot_hashes::SlotHashes,
    stable_layout::stable_instruction::StableInstruction,
    system_program, sysvar,
    sysvar::Sysvar,
    transaction_context::{IndexOfAccount, InstructionAccount, TransactionContext},
};

pub type ProcessInstruction =
    fn(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult;

// ---------------------------------------------------------------- CPI adapter

thread_local! {
    static INVOKE_CONTEXT: Cell<usize> = const { Cell::new(0) };
    /// Fault injection: abort the transaction at the n-th cross-program call.
    static CPI_BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static CPI_COUNT: Cell<u64> = const { Cell::new(0) };
    static FAULT_FIRED: Cell<bool> = const { Cell::new(false) };
    static CPI_TRACE: RefCell<Vec<CpiRecord>> = const { RefCell::new(Vec::new()) };
}

/// One cross-program call, as the callee saw it.
#[derive(Clone, Debug)]
pub struct CpiRecord {
    pub caller: Pubkey,
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}

struct TxAbort(InstructionError);

fn abort(err: InstructionError) -> ! {
    resume_unwind(Box::new(TxAbort(err)))
}

fn get_invoke_context<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = INVOKE_CONTEXT.with(|c| c.get());
    assert!(p != 0, "no invoke context");
    unsafe { &mut *(p as *mut InvokeContext) }
}

fn panic_to_err(p: Box<dyn Any + Send>) -> InstructionError {
    match p.downcast::<TxAbort>() {
        Ok(a) => a.0,
        Err(_) => InstructionError::ProgramFailedToComplete,
    }
}

fn invoke_native(
    f: ProcessInstruction,
    invoke_context: &mut InvokeContext,
) -> Result<(), InstructionError> {
    INVOKE_CONTEXT.with(|c| c.set(invoke_context as *mut InvokeContext as usize));

    let n_accounts;
    let instruction_data;
    {
        let tc = &invoke_context.transaction_context;
        let ic = tc.get_current_instruction_context()?;
        instruction_data = ic.get_instruction_data().to_vec();
        n_accounts = ic.get_number_of_instruction_accounts();
    }
    let (mut parameter_bytes, _regions, _lens) = serialize_parameters(
        invoke_context.transaction_context,
        invoke_context
            .transaction_context
            .get_current_instruction_context()?,
        true,
    )?;
    let (program_id, account_infos, _input) =
        unsafe { deserialize(&mut parameter_bytes.as_slice_mut()[0] as *mut u8) };

    match catch_unwind(AssertUnwindSafe(|| {
        f(program_id, &account_infos, &instruction_data)
    })) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(InstructionError::from(u64::from(e))),
        Err(p) => return Err(panic_to_err(p)),
    }

    let tc = &invoke_context.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    let mut seen = BTreeSet::new();
    for i in 0..n_accounts {
        let mut b = ic.try_borrow_instruction_account(tc, i)?;
        if !seen.insert(*b.get_key()) {
            continue;
        }
        let info = account_infos
            .iter()
            .find(|a| a.key == b.get_key())
            .ok_or(InstructionError::MissingAccount)?;
        if b.get_lamports() != info.lamports() {
            b.set_lamports(info.lamports())?;
        }
        let data = info
            .try_borrow_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        if b.get_data() != &data[..] {
            b.can_data_be_resized(data.len())?;
            b.can_data_be_changed()?;
            b.set_data_from_slice(&data)?;
        }
        if b.get_owner() != info.owner {
            b.set_owner(info.owner.as_ref())?;
        }
    }
    Ok(())
}

fn get_sysvar<T: Sysvar + Clone>(
    sysvar: Result<Arc<T>, InstructionError>,
    var_addr: *mut u8,
) -> u64 {
    match sysvar {
        Ok(v) => unsafe {
            *(var_addr as *mut T) = T::clone(&v);
            SUCCESS
        },
        Err(_) => UNSUPPORTED_SYSVAR,
    }
}

struct Stubs;

fn do_invoke(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let n = CPI_COUNT.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    if n >= CPI_BUDGET.with(|c| c.get()) {
        FAULT_FIRED.with(|c| c.set(true));
        return Err(InstructionError::ComputationalBudgetExceeded);
    }
    let instruction = StableInstruction::from(instruction.clone());
    let invoke_context = get_invoke_context();
    let tc = &invoke_context.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    let caller = *ic.get_last_program_key(tc)?;
    let mut signers = vec![];
    for seeds in signers_seeds {
        signers.push(
            Pubkey::create_program_address(seeds, &caller)
                .map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    CPI_TRACE.with(|t| {
        t.borrow_mut().push(CpiRecord {
            caller,
            program: instruction.program_id,
            accounts: instruction
                .accounts
                .iter()
                .map(|m| (m.pubkey, m.is_signer, m.is_writable))
                .collect(),
            data: instruction.data.to_vec(),
        })
    });
    let (instruction_accounts, program_indices) =
        invoke_context.prepare_instruction(&instruction, &signers)?;

    let tc = &invoke_context.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    let mut updates = vec![];
    for ia in instruction_accounts.iter() {
        let key = tc.get_key_of_account_at_index(ia.index_in_transaction)?;
        let pos = account_infos
            .iter()
            .position(|a| a.unsigned_key() == key)
            .ok_or(InstructionError::MissingAccount)?;
        let info = &account_infos[pos];
        let mut b = ic.try_borrow_instruction_account(tc, ia.index_in_caller)?;
        if b.get_lamports() != info.lamports() {
            b.set_lamports(info.lamports())?;
        }
        let data = info
            .try_borrow_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        if b.get_data() != &data[..] {
            b.can_data_be_resized(data.len())?;
            b.can_data_be_changed()?;
            b.set_data_from_slice(&data)?;
        }
        if b.get_owner() != info.owner {
            b.set_owner(info.owner.as_ref())?;
        }
        if ia.is_writable {
            updates.push((ia.index_in_caller, pos));
        }
    }

    let mut cu = 0;
    invoke_context.process_instruction(
        &instruction.data,
        &instruction_accounts,
        &program_indices,
        &mut cu,
        &mut ExecuteTimings::default(),
    )?;

    let tc = &invoke_context.transaction_context;
    let ic = tc.get_current_instruction_context()?;
    for (index_in_caller, pos) in updates {
        let b = ic.try_borrow_instruction_account(tc, index_in_caller)?;
        let info = &account_infos[pos];
        **info
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = b.get_lamports();
        if info.owner != b.get_owner() {
            #[allow(invalid_reference_casting)]
            unsafe {
                std::ptr::write_volatile(info.owner as *const Pubkey as *mut Pubkey, *b.get_owner())
            };
        }
        let new_data = b.get_data();
        if info.data_len() != new_data.len() {
            info.realloc(new_data.len(), false)
                .map_err(|_| InstructionError::InvalidRealloc)?;
        }
        info.try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?
            .clone_from_slice(new_data);
    }
    Ok(())
}

impl solana_sdk::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        if let Some(l) = get_invoke_context().get_log_collector() {
            l.borrow_mut().log(&format!("Program log: {message}"));
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        match do_invoke(instruction, account_infos, signers_seeds) {
            Ok(()) => Ok(()),
            Err(e) => abort(e),
        }
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(get_invoke_context().get_sysvar_cache().get_clock(), a)
    }
    fn sol_get_epoch_schedule_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(get_invoke_context().get_sysvar_cache().get_epoch_schedule(), a)
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(get_invoke_context().get_sysvar_cache().get_rent(), a)
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (p, d) = get_invoke_context().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let c = get_invoke_context();
        let tc = &mut c.transaction_context;
        let caller = *tc
            .get_current_instruction_context()
            .unwrap()
            .get_last_program_key(tc)
            .unwrap();
        tc.set_return_data(caller, data.to_vec()).unwrap();
    }
    fn sol_get_stack_height(&self) -> u64 {
        get_invoke_context().get_stack_height() as u64
    }
}

macro_rules! native {
    ($m:ident, $f:expr) => {
        mod $m {
            use super::*;
            declare_process_instruction!(Entrypoint, 1, |invoke_context| {
                invoke_native($f, invoke_context)
            });
        }
    };
}

/// Anchor entry points have an `'info`-tied signature; this casts it away.
macro_rules! anchor_entry {
    ($name:ident, $entry:path) => {
        fn $name(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
            let a: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(a) };
            $entry(p, a, d)
        }
    };
}

anchor_entry!(manager_entry, example_native_token_transfers::entry);
anchor_entry!(transceiver_entry, ntt_transceiver::entry);
anchor_entry!(quoter_entry, ntt_quoter::entry);
anchor_entry!(governance_entry, wormhole_governance::entry);
anchor_entry!(hook_entry, dummy_transfer_hook::entry);

native!(p_manager, manager_entry);
native!(p_transceiver, transceiver_entry);
native!(p_quoter, quoter_entry);
native!(p_governance, governance_entry);
native!(p_hook, hook_entry);
native!(p_token, spl_token::processor::Processor::process);
native!(p_token22, spl_token_2022::processor::Processor::process);
native!(
    p_ata,
    spl_associated_token_account::processor::process_instruction
);
native!(p_probe, crate::probe::process);
native!(p_probe2, crate::probe::process);

pub fn manager_id() -> Pubkey {
    example_native_token_transfers::ID
}
pub fn transceiver_id() -> Pubkey {
    ntt_transceiver::ID
}
pub fn quoter_id() -> Pubkey {
    ntt_quoter::ID
}
pub fn governance_id() -> Pubkey {
    wormhole_governance::ID
}
pub fn hook_id() -> Pubkey {
    dummy_transfer_hook::ID
}
/// A third transceiver / arbitrary governed target, implemented by the harness.
pub fn probe_id() -> Pubkey {
    Pubkey::new_from_array(*b"probe-transceiver-program-aaaaaa")
}
pub fn probe2_id() -> Pubkey {
    Pubkey::new_from_array(*b"probe-transceiver-program-bbbbbb")
}
pub fn core_bridge_id() -> Pubkey {
    "worm2ZoG2kUd4vFXhvjh93UUH596ayRfgQ2MgjNMTth".parse().unwrap()
}

// ------------------------------------------------------------------ programs

/// The programs shared (read only) by every ledger and worker.
pub struct Programs {
    pub batch: LoadedProgramsForTxBatch,
    pub features: Arc<FeatureSet>,
    pub core_bridge_elf: Vec<u8>,
}

unsafe impl Sync for Programs {}
unsafe impl Send for Programs {}

pub const FIXTURES: &str = "/repo/solana/programs/example-native-token-transfers/tests/fixtures";

impl Programs {
    pub fn load() -> Arc<Programs> {
        solana_sdk::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let features = Arc::new(FeatureSet::all_enabled());
        let budget = ComputeBudget::new(1_400_000);
        let env = Arc::new(
            solana_bpf_loader_program::syscalls::create_program_runtime_environment_v1(
                &features, &budget, false, false,
            )
            .unwrap(),
        );
        let envs = ProgramRuntimeEnvironments {
            program_runtime_v1: env.clone(),
            program_runtime_v2: env.clone(),
        };
        let mut batch = LoadedProgramsForTxBatch::new(10, envs, None, 0);
        let mut add = |id: Pubkey, f| {
            batch.replenish(id, Arc::new(LoadedProgram::new_builtin(0, 1, f)));
        };
        add(
            system_program::id(),
            solana_system_program::system_processor::Entrypoint::vm,
        );
        add(bpf_loader::id(), solana_bpf_loader_program::Entrypoint::vm);
        add(
            bpf_loader_upgradeable::id(),
            solana_bpf_loader_program::Entrypoint::vm,
        );
        add(
            solana_address_lookup_table_program::id(),
            solana_address_lookup_table_program::processor::Entrypoint::vm,
        );
        add(manager_id(), p_manager::Entrypoint::vm);
        add(transceiver_id(), p_transceiver::Entrypoint::vm);
        add(quoter_id(), p_quoter::Entrypoint::vm);
        add(governance_id(), p_governance::Entrypoint::vm);
        add(hook_id(), p_hook::Entrypoint::vm);
        add(spl_token::id(), p_token::Entrypoint::vm);
        add(spl_token_2022::id(), p_token22::Entrypoint::vm);
        add(spl_associated_token_account::id(), p_ata::Entrypoint::vm);
        add(probe_id(), p_probe::Entrypoint::vm);
        add(probe2_id(), p_probe2::Entrypoint::vm);

        let elf = std::fs::read(format!("{FIXTURES}/mainnet_core_bridge.so"))
            .expect("core bridge fixture");
        let lp = LoadedProgram::new(
            &bpf_loader::id(),
            env,
            0,
            0,
            None,
            &elf,
            elf.len(),
            &mut LoadProgramMetrics::default(),
        )
        .expect("core bridge loads");
        batch.replenish(core_bridge_id(), Arc::new(lp));
        Arc::new(Programs {
            batch,
            features,
            core_bridge_elf: elf,
        })
    }

    pub fn builtin_ids() -> Vec<Pubkey> {
        vec![
            system_program::id(),
            bpf_loader::id(),
            bpf_loader_upgradeable::id(),
            solana_address_lookup_table_program::id(),
            manager_id(),
            transceiver_id(),
            quoter_id(),
            governance_id(),
            hook_id(),
            spl_token::id(),
            spl_token_2022::id(),
            spl_associated_token_account::id(),
            probe_id(),
            probe2_id(),
        ]
    }
}

// -------------------------------------------------------------------- ledger

#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub signers: BTreeSet<Pubkey>,
    /// Inject: the transaction dies at this cross-program call.
    pub cpi_fault: Option<u64>,
}

impl Tx {
    pub fn new(ixs: Vec<Instruction>, signers: &[Pubkey]) -> Tx {
        Tx {
            ixs,
            signers: signers.iter().copied().collect(),
            cpi_fault: None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub ok: bool,
    pub err: String,
    pub logs: Vec<String>,
    /// Every account whose lamports, data or owner changed: (key, before, after).
    pub diff: Vec<(Pubkey, Option<Account>, Option<Account>)>,
    pub cpis: Vec<CpiRecord>,
    pub fault_fired: bool,
    pub return_data: Option<(Pubkey, Vec<u8>)>,
}

impl TxResult {
    fn fail(err: String) -> TxResult {
        TxResult {
            ok: false,
            err,
            logs: vec![],
            diff: vec![],
            cpis: vec![],
            fault_fired: false,
            return_data: None,
        }
    }
}

#[derive(Clone)]
pub struct Ledger {
    /// the latest time this ledger's clock has shown
    pub latest: i64,
    pub programs: Arc<Programs>,
    pub accounts: BTreeMap<Pubkey, AccountSharedData>,
    pub clock: Clock,
    pub rent: Rent,
    pub want_logs: bool,
}

impl Ledger {
    pub fn new(programs: Arc<Programs>, unix_timestamp: i64) -> Ledger {
        let mut l = Ledger {
            programs,
            accounts: BTreeMap::new(),
            clock: Clock::default(),
            rent: Rent::default(),
            want_logs: false,
            latest: unix_timestamp,
        };
        for id in Programs::builtin_ids() {
            let mut a = AccountSharedData::new(1, 0, &native_loader::id());
            a.set_executable(true);
            l.accounts.insert(id, a);
        }
        let elf = &l.programs.core_bridge_elf;
        let mut a = AccountSharedData::new(
            l.rent.minimum_balance(elf.len()),
            0,
            &bpf_loader::id(),
        );
        a.set_executable(true);
        l.accounts.insert(core_bridge_id(), a);
        let mut rent_acc = AccountSharedData::new(1, 0, &sysvar::id());
        rent_acc.set_data_from_slice(&bincode::serialize(&l.rent).unwrap());
        l.accounts.insert(sysvar::rent::id(), rent_acc);
        l.set_clock(unix_timestamp, 100);
        l
    }

    pub fn set_clock(&mut self, unix_timestamp: i64, slot: u64) {
        self.clock.unix_timestamp = unix_timestamp;
        self.clock.slot = slot;
        let mut a = AccountSharedData::new(1, 0, &sysvar::id());
        a.set_data_from_slice(&bincode::serialize(&self.clock).unwrap());
        self.accounts.insert(sysvar::clock::id(), a);
    }

    pub fn now(&self) -> i64 {
        self.clock.unix_timestamp
    }

    pub fn advance(&mut self, secs: i64) {
        let slots = (secs.max(0) as u64) * 2 + 1;
        self.set_clock(self.clock.unix_timestamp + secs, self.clock.slot + slots);
        self.latest = self.latest.max(self.clock.unix_timestamp);
    }

    /// A clock that was set back is right again.
    pub fn catch_up(&mut self) {
        let d = self.latest - self.now();
        if d > 0 {
            self.advance(d);
        }
    }

    pub fn get(&self, k: &Pubkey) -> Option<&AccountSharedData> {
        self.accounts.get(k)
    }

    pub fn data(&self, k: &Pubkey) -> Option<&[u8]> {
        self.accounts.get(k).map(|a| a.data())
    }

    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map_or(0, |a| a.lamports())
    }

    pub fn owner(&self, k: &Pubkey) -> Pubkey {
        self.accounts.get(k).map_or(system_program::id(), |a| *a.owner())
    }

    pub fn put(&mut self, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
        let mut a = AccountSharedData::new(lamports, 0, &owner);
        a.set_data_from_slice(&data);
        self.accounts.insert(k, a);
    }

    pub fn airdrop(&mut self, k: &Pubkey, lamports: u64) {
        let mut a = self
            .accounts
            .get(k)
            .cloned()
            .unwrap_or_else(|| AccountSharedData::new(0, 0, &system_program::id()));
        a.set_lamports(a.lamports() + lamports);
        self.accounts.insert(*k, a);
    }

    fn sysvars(&self) -> SysvarCache {
        let mut c = SysvarCache::default();
        c.set_clock(self.clock.clone());
        c.set_rent(self.rent.clone());
        c.set_epoch_schedule(EpochSchedule::without_warmup());
        let slots: Vec<_> = (1..=64u64)
            .filter_map(|i| self.clock.slot.checked_sub(i))
            .map(|s| (s, Hash::default()))
            .collect();
        c.set_slot_hashes(SlotHashes::new(&slots));
        c
    }

    /// Execute a transaction atomically against this ledger.
    pub fn exec(&mut self, tx: &Tx) -> TxResult {
        // account list: every key mentioned, writable/signer merged per transaction
        let mut keys: Vec<Pubkey> = vec![];
        let mut index: BTreeMap<Pubkey, usize> = BTreeMap::new();
        let mut writable: Vec<bool> = vec![];
        let mut signer: Vec<bool> = vec![];
        let mut add = |k: &Pubkey, w: bool, s: bool| {
            let i = *index.entry(*k).or_insert_with(|| {
                keys.push(*k);
                writable.push(false);
                signer.push(false);
                keys.len() - 1
            });
            writable[i] |= w;
            signer[i] |= s;
        };
        for ix in &tx.ixs {
            for m in &ix.accounts {
                if m.is_signer && !tx.signers.contains(&m.pubkey) {
                    return TxResult::fail(format!("signature missing: {}", m.pubkey));
                }
                add(&m.pubkey, m.is_writable, m.is_signer);
            }
            add(&ix.program_id, false, false);
        }
        // Programs called and sysvars are never writable.
        for (i, k) in keys.iter().enumerate() {
            if self.accounts.get(k).map_or(false, |a| a.executable()) || sysvar::is_sysvar_id(k) {
                writable[i] = false;
            }
        }
        let pre: Vec<AccountSharedData> = keys
            .iter()
            .map(|k| {
                self.accounts
                    .get(k)
                    .cloned()
                    .unwrap_or_else(|| AccountSharedData::new(0, 0, &system_program::id()))
            })
            .collect();
        let txaccs: Vec<_> = keys.iter().copied().zip(pre.iter().cloned()).collect();
        let budget = ComputeBudget::new(1_400_000);
        let mut tc = TransactionContext::new(
            txaccs,
            self.rent.clone(),
            budget.max_invoke_stack_height,
            budget.max_instruction_trace_length,
        );
        let sysvars = self.sysvars();
        let logs = if self.want_logs {
            Some(LogCollector::new_ref_with_limit(None))
        } else {
            None
        };
        let mut modified = LoadedProgramsForTxBatch::new(
            10,
            self.programs.batch.environments.clone(),
            None,
            0,
        );
        CPI_BUDGET.with(|c| c.set(tx.cpi_fault.unwrap_or(u64::MAX)));
        CPI_COUNT.with(|c| c.set(0));
        FAULT_FIRED.with(|c| c.set(false));
        CPI_TRACE.with(|t| t.borrow_mut().clear());
        let mut result: Result<(), (usize, InstructionError)> = Ok(());
        {
            let mut ic = InvokeContext::new(
                &mut tc,
                &sysvars,
                logs.clone(),
                budget,
                &self.programs.batch,
                &mut modified,
                self.programs.features.clone(),
                Hash::default(),
                5000,
            );
            for (n, ix) in tx.ixs.iter().enumerate() {
                let mut ias: Vec<InstructionAccount> = vec![];
                for (i, m) in ix.accounts.iter().enumerate() {
                    let t = index[&m.pubkey];
                    let callee = ix.accounts[..i]
                        .iter()
                        .position(|x| x.pubkey == m.pubkey)
                        .unwrap_or(i);
                    ias.push(InstructionAccount {
                        index_in_transaction: t as IndexOfAccount,
                        index_in_caller: t as IndexOfAccount,
                        index_in_callee: callee as IndexOfAccount,
                        is_signer: signer[t],
                        is_writable: writable[t],
                    });
                }
                let mut cu = 0;
                let pidx = vec![index[&ix.program_id] as IndexOfAccount];
                if let Err(e) = ic.process_instruction(
                    &ix.data,
                    &ias,
                    &pidx,
                    &mut cu,
                    &mut ExecuteTimings::default(),
                ) {
                    result = Err((n, e));
                    break;
                }
            }
        }
        INVOKE_CONTEXT.with(|c| c.set(0));
        let fault_fired = FAULT_FIRED.with(|c| c.get());
        let cpis = CPI_TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
        let logs = logs.map_or(vec![], |l| l.borrow().get_recorded_content().to_vec());
        let return_data = {
            let (p, d) = tc.get_return_data();
            (!d.is_empty()).then(|| (*p, d.to_vec()))
        };
        let mut r = TxResult {
            ok: true,
            err: String::new(),
            logs,
            diff: vec![],
            cpis,
            fault_fired,
            return_data,
        };
        if let Err((n, e)) = result {
            r.ok = false;
            r.err = format!("ix {n}: {e:?}");
            return r;
        }
        let post: Vec<AccountSharedData> = (0..keys.len())
            .map(|i| {
                tc.get_account_at_index(i as IndexOfAccount)
                    .unwrap()
                    .borrow()
                    .clone()
            })
            .collect();
        // The runtime's own global checks: lamports conserved, rent exemption.
        let sum = |v: &[AccountSharedData]| v.iter().map(|a| a.lamports() as u128).sum::<u128>();
        if sum(&pre) != sum(&post) {
            r.ok = false;
            r.err = "unbalanced transaction".into();
            return r;
        }
        for i in 0..keys.len() {
            let (a, b) = (&pre[i], &post[i]);
            if a == b {
                continue;
            }
            if b.lamports() != 0
                && !self.rent.is_exempt(b.lamports(), b.data().len())
                && !(a.lamports() != 0 && a.data().len() == b.data().len() && b.lamports() <= a.lamports())
            {
                r.ok = false;
                r.err = format!("insufficient funds for rent: {}", keys[i]);
                return r;
            }
        }
        for i in 0..keys.len() {
            let (a, b) = (&pre[i], &post[i]);
            if a == b {
                continue;
            }
            let before = self.accounts.get(&keys[i]).map(|a| Account::from(a.clone()));
            if b.lamports() == 0 {
                self.accounts.remove(&keys[i]);
                r.diff.push((keys[i], before, None));
            } else {
                self.accounts.insert(keys[i], b.clone());
                r.diff.push((keys[i], before, Some(Account::from(b.clone()))));
            }
        }
        r
    }
}
