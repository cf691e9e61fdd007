//! The simulated deployment: several real ledgers and reference-model EVM
//! chains, the guardian network between them, and everything the oracles
//! remember about the history.

use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

use solana_sdk::{
    account::{AccountSharedData, ReadableAccount, WritableAccount},
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};

use crate::{ix, ix::*, svm::*};

/// A property id.
pub type P = &'static str;

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<P>,
    pub what: String,
    pub step: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub acts: BTreeMap<String, [u64; 3]>, // ok, rejected, no-op
    pub faults: BTreeMap<&'static str, u64>,
    /// How often an oracle carrying this property's tag was evaluated.
    pub hits: BTreeMap<P, u64>,
    /// Rejections that the reference model demanded, by reason.
    pub rejected: BTreeMap<String, u64>,
    pub txs: u64,
    pub sim_secs: u64,
    pub delivered: u64,
    pub exempt: u64,
    /// Running hash of (act, outcome, reasons): one value per distinct history.
    pub fp: u64,
    pub states: BTreeSet<u64>,
    pub log: Option<Vec<String>>,
}

impl Stats {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    pub fn mix(&mut self, s: &str) {
        for b in s.bytes() {
            self.fp = (self.fp ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.acts {
            let e = self.acts.entry(k.clone()).or_default();
            for i in 0..3 {
                e[i] += v[i];
            }
        }
        for (k, v) in &o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in &o.hits {
            *self.hits.entry(k).or_default() += v;
        }
        for (k, v) in &o.rejected {
            *self.rejected.entry(k.clone()).or_default() += v;
        }
        self.txs += o.txs;
        self.sim_secs += o.sim_secs;
        self.delivered += o.delivered;
        self.exempt += o.exempt;
        if self.states.len() < 4_000_000 {
            self.states.extend(o.states.iter());
        }
    }
}

// --------------------------------------------------------------------- config

/// World parameters; every field is reduced from raw numbers so that zero is
/// the simplest choice and the minimiser can zero them independently.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WorldCfg {
    pub p: Vec<u64>,
}

pub const CFG_LEN: usize = 80;

impl WorldCfg {
    pub fn get(&self, i: usize, n: u64) -> u64 {
        self.p.get(i).copied().unwrap_or(0) % n
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TokKind {
    Spl,
    T22,
    T22Hook,
    T22Fee,
}

// --------------------------------------------------------------------- chains

#[derive(Clone)]
pub struct Sol {
    pub l: Ledger,
    pub tok: Tok,
    pub kind: TokKind,
    pub chain: u16,
    /// What the deployment was configured as (the reference).
    pub burning: bool,
    pub limit0: u64,
    pub skew: i64,
    pub fee_bp: u16,
    pub max_fee: u64,
    pub other_mint: Pubkey,
    pub core_msgs: Vec<Pubkey>,
    pub luts: Vec<(u64, Pubkey)>,
    pub posted: BTreeSet<usize>,
    /// Tokens users gave to the custody account outside of any transfer.
    pub donated: u64,
    /// Transceiver message accounts by transceiver program.
    pub tmsgs: Vec<(Pubkey, Pubkey)>,
    pub inbox: Vec<Pubkey>,
    pub outbox: Vec<Pubkey>,
    /// wormhole peer pairs set so far (program, chain)
    pub requests: Vec<Pubkey>,
    pub partitioned: bool,
    /// The upgrade authority was moved with the loader's own instruction.
    pub auth_moved: bool,
    pub relay_items: Vec<Pubkey>,
}

#[derive(Clone, Debug)]
pub struct Evm {
    pub chain: u16,
    pub decimals: u8,
    pub circulating: u128,
    pub manager: [u8; 32],
    pub token: [u8; 32],
    pub seq: u64,
    /// Deployed at the same addresses on every chain.
    pub twin: bool,
    pub processed: BTreeMap<(u16, [u8; 32]), u64>,
}

impl Evm {
    pub fn emitter(&self, t: &Pubkey) -> [u8; 32] {
        let c = if self.twin { 0 } else { self.chain };
        hashv(&[b"evm-emitter", &c.to_be_bytes(), t.as_ref()]).to_bytes()
    }
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub src_chain: u16,
    pub msg: Msg,
    pub norm: u128,
    /// Some(decimals-scaled amount in the source's own units)
    pub amount: u64,
    pub at: i64,
}

#[derive(Clone, Debug)]
pub struct Vaa {
    pub p: Posted,
    /// Which transceiver (program id on the Solana side) it belongs to.
    pub t: Pubkey,
    pub honest: bool,
}

#[derive(Clone)]
pub struct World {
    pub cfg: WorldCfg,
    pub sols: Vec<Sol>,
    pub evms: Vec<Evm>,
    pub sent: Vec<Sent>,
    pub vaas: Vec<Vaa>,
    pub gov_vaas: Vec<GovVaa>,
    /// Core-bridge messages the guardians have seen but not signed yet.
    pub unsigned: Vec<(usize, Pubkey, Posted)>,
    pub standing: Vec<(usize, Pubkey, TransferArgs)>,
    pub mempool: Vec<crate::acts::Act>,
    pub relayers: Vec<Vec<crate::acts::Act>>,
    /// (dest chain, source chain, message id) -> times credited
    pub credited: BTreeMap<(u16, u16, [u8; 32]), u64>,
    pub total0: i128,
    pub track_total: bool,
    pub next_key: u64,
    pub step: usize,
    pub violations: Vec<Violation>,
    pub stats: Stats,
    pub byz: BTreeSet<Pubkey>,
    pub started: Vec<i64>,
    pub faults_on: bool,
    /// (ledger, transceiver, transfer id) -> messages published
    pub published: BTreeMap<(usize, Pubkey, [u8; 32]), u64>,
    pub check_ids: bool,
    pub healing: bool,
    /// The property whose slots account substitutions prefer.
    pub focus: Option<P>,
}

#[derive(Clone, Debug)]
pub struct GovVaa {
    pub p: Posted,
    pub key: Pubkey,
    pub inner: Option<Box<crate::acts::Act>>,
    pub ix: Instruction,
    pub raw_owner: Pubkey,
    pub is_vaa: bool,
    pub posted: BTreeSet<usize>,
    /// Reason it must be rejected, if any.
    pub bad: Option<&'static str>,
    pub executed: BTreeMap<usize, u64>,
}

pub fn user(i: u64) -> Pubkey {
    named("user", i)
}
pub fn attacker() -> Pubkey {
    named("attacker", 0)
}
pub fn owner_key(i: u64) -> Pubkey {
    named("owner", i)
}
pub fn payer(i: u64) -> Pubkey {
    named("payer", i)
}
pub fn aux_vault() -> Pubkey {
    named("aux-vault", 0)
}
pub fn qowner() -> Pubkey {
    named("qowner", 0)
}
pub fn qassistant(i: u64) -> Pubkey {
    named("qassistant", i)
}
pub fn qfee(i: u64) -> Pubkey {
    named("qfee", i)
}
pub const USERS: u64 = 4;

/// The transceiver programs a deployment can register.
pub fn all_transceivers() -> Vec<Pubkey> {
    vec![manager_id(), transceiver_id(), probe_id(), probe2_id()]
}

pub fn pow10(n: u8) -> u128 {
    10u128.pow(n as u32)
}
pub fn norm(amount: u64, decimals: u8) -> u128 {
    if decimals <= 18 {
        amount as u128 * pow10(18 - decimals)
    } else {
        amount as u128
    }
}
/// Documented trimming: cap at 8 decimals and at both sides' decimals.
pub fn trim(amount: u64, from: u8, to: u8) -> (u64, u8, u64) {
    let d = 8.min(from).min(to);
    let f = pow10(from - d);
    let t = (amount as u128 / f) as u64;
    (t, d, (t as u128 * f) as u64)
}
/// Documented untrimming; None on overflow.
pub fn untrim(amount: u64, d: u8, to: u8) -> Option<u64> {
    if to >= d {
        let f = if to - d > 19 { return None } else { pow10(to - d) };
        u64::try_from(amount as u128 * f).ok()
    } else if d - to > 19 {
        None // beyond any factor the conversion has
    } else {
        Some((amount as u128 / pow10(d - to)) as u64)
    }
}

const CHAIN_IDS: [u16; 8] = [1, 2, 513, 258, 30, 10002, 65535, 4];
const DECIMALS: [u8; 8] = [9, 6, 8, 18, 0, 7, 12, 3];

fn sys_create(l: &mut Ledger, key: Pubkey, space: usize, owner: Pubkey) {
    let lam = l.rent.minimum_balance(space);
    l.put(key, lam, vec![0; space], owner);
}

/// Create the mint with real token-program instructions.
fn make_mint(
    l: &mut Ledger,
    kind: TokKind,
    mint: Pubkey,
    decimals: u8,
    authority: Pubkey,
    fee_bp: u16,
    max_fee: u64,
) -> Pubkey {
    use spl_token_2022::extension::{transfer_fee, transfer_hook, ExtensionType};
    match kind {
        TokKind::Spl => {
            sys_create(l, mint, 82, spl_token::id());
            let i = spl_token::instruction::initialize_mint2(
                &spl_token::id(),
                &mint,
                &authority,
                None,
                decimals,
            )
            .unwrap();
            assert!(l.exec(&Tx::new(vec![i], &[])).ok);
            spl_token::id()
        }
        _ => {
            let pid = spl_token_2022::id();
            let exts: Vec<ExtensionType> = match kind {
                TokKind::T22Hook => vec![ExtensionType::TransferHook],
                TokKind::T22Fee => vec![ExtensionType::TransferFeeConfig],
                _ => vec![],
            };
            let n = ExtensionType::try_calculate_account_len::<spl_token_2022::state::Mint>(&exts)
                .unwrap();
            sys_create(l, mint, n, pid);
            let mut ixs = vec![];
            if kind == TokKind::T22Hook {
                ixs.push(
                    transfer_hook::instruction::initialize(
                        &pid,
                        &mint,
                        Some(authority),
                        Some(hook_id()),
                    )
                    .unwrap(),
                );
            }
            if kind == TokKind::T22Fee {
                ixs.push(
                    transfer_fee::instruction::initialize_transfer_fee_config(
                        &pid, &mint, None, None, fee_bp, max_fee,
                    )
                    .unwrap(),
                );
            }
            ixs.push(
                spl_token_2022::instruction::initialize_mint2(
                    &pid, &mint, &authority, None, decimals,
                )
                .unwrap(),
            );
            let r = l.exec(&Tx::new(ixs, &[]));
            assert!(r.ok, "mint: {}", r.err);
            pid
        }
    }
}

fn mint_to(l: &mut Ledger, t: &Tok, to: Pubkey, authority: Pubkey, amount: u64) {
    if amount == 0 {
        return;
    }
    let mut data = vec![7u8];
    data.extend_from_slice(&amount.to_le_bytes());
    let i = Instruction {
        program_id: t.program,
        accounts: vec![
            AccountMeta::new(t.mint, false),
            AccountMeta::new(to, false),
            AccountMeta::new_readonly(authority, true),
        ],
        data,
    };
    let r = l.exec(&Tx::new(vec![i], &[authority]));
    assert!(r.ok, "mint_to: {}", r.err);
}

fn set_mint_authority(l: &mut Ledger, t: &Tok, authority: Pubkey, new: Pubkey) {
    let mut data = vec![6u8, 0, 1];
    data.extend_from_slice(new.as_ref());
    let i = Instruction {
        program_id: t.program,
        accounts: vec![
            AccountMeta::new(t.mint, false),
            AccountMeta::new_readonly(authority, true),
        ],
        data,
    };
    let r = l.exec(&Tx::new(vec![i], &[authority]));
    assert!(r.ok, "set authority: {}", r.err);
}

impl Sol {
    pub fn config(&self) -> Option<Config> {
        Config::decode(self.l.data(&ix::config())?)
    }
    pub fn orl(&self) -> Option<RateLimit> {
        RateLimit::decode_outbox(self.l.data(&outbox_rl())?)
    }
    pub fn irl(&self, chain: u16) -> Option<RateLimit> {
        RateLimit::decode_inbox(self.l.data(&inbox_rl(chain))?)
    }
    pub fn peer(&self, chain: u16) -> Option<Peer> {
        Peer::decode(self.l.data(&ix::peer(chain))?)
    }
    pub fn reg(&self, t: &Pubkey) -> Option<Registered> {
        Registered::decode(self.l.data(&registered_transceiver(t))?)
    }
    pub fn enabled(&self, t: &Pubkey) -> bool {
        match (self.config(), self.reg(t)) {
            (Some(c), Some(r)) => r.id < 128 && c.enabled >> r.id & 1 == 1,
            _ => false,
        }
    }
    pub fn tpeer(&self, t: &Pubkey, chain: u16) -> Option<[u8; 32]> {
        decode_transceiver_peer(self.l.data(&transceiver_peer(t, chain))?)
    }
    pub fn token(&self, k: &Pubkey) -> Option<TokenAcc> {
        if self.l.owner(k) != self.tok.program {
            return None;
        }
        TokenAcc::decode(self.l.data(k)?)
    }
    pub fn balance(&self, k: &Pubkey) -> u64 {
        self.token(k).map_or(0, |t| t.amount)
    }
    pub fn supply(&self) -> u64 {
        self.l.data(&self.tok.mint).and_then(mint_supply).unwrap_or(0)
    }
    pub fn custody_balance(&self) -> u64 {
        self.balance(&self.tok.custody())
    }
    pub fn now(&self) -> i64 {
        self.l.now()
    }
    pub fn item(&self, k: &Pubkey) -> Option<OutboxItem> {
        if self.l.owner(k) != manager_id() {
            return None;
        }
        OutboxItem::decode(self.l.data(k)?)
    }
    pub fn inbox_item(&self, k: &Pubkey) -> Option<InboxItem> {
        if self.l.owner(k) != manager_id() {
            return None;
        }
        InboxItem::decode(self.l.data(k)?)
    }
    pub fn bridge_fee(&self) -> u64 {
        self.l
            .data(&bridge())
            .map_or(0, |d| u64::from_le_bytes(d[16..24].try_into().unwrap()))
    }
    pub fn edit(&mut self, k: &Pubkey, f: impl FnOnce(&mut Vec<u8>)) {
        if let Some(a) = self.l.accounts.get(k) {
            let mut a2: AccountSharedData = a.clone();
            let mut d = a.data().to_vec();
            f(&mut d);
            a2.set_data_from_slice(&d);
            let _ = a2.lamports();
            self.l.accounts.insert(*k, a2);
        }
    }
    pub fn hook_count(&self) -> u64 {
        self.l
            .data(&hook_counter())
            .map_or(0, |d| u64::from_le_bytes(d[8..16].try_into().unwrap()))
    }
    /// The hook program's own state is broken (a fault), so it refuses transfers.
    pub fn hook_refuses(&self) -> bool {
        self.tok.hook && self.l.owner(&hook_counter()) != hook_id()
    }
    pub fn break_hook(&mut self, broken: bool) {
        let k = hook_counter();
        if let Some(a) = self.l.accounts.get(&k) {
            let mut a = a.clone();
            a.set_owner(if broken { named("evil-program", 1) } else { hook_id() });
            self.l.accounts.insert(k, a);
        }
    }
    /// Tokens outside of the manager's control, in the common 18-decimal unit.
    pub fn circulating(&self) -> i128 {
        let s = self.supply() as i128 - self.custody_balance() as i128 + self.donated as i128;
        s * pow10(18 - self.tok.decimals.min(18)) as i128
    }
}

impl World {
    pub fn new(programs: &Arc<Programs>, cfg: WorldCfg, sink: bool) -> World {
        let n_sol = 2 + cfg.get(0, 2) as usize;
        let n_evm = cfg.get(1, 3) as usize;
        let hub = cfg.get(2, 2) == 0; // chain 0 locks, the others burn
        let mut w = World {
            cfg: cfg.clone(),
            sols: vec![],
            evms: vec![],
            sent: vec![],
            vaas: vec![],
            gov_vaas: vec![],
            unsigned: vec![],
            standing: vec![],
            mempool: vec![],
            relayers: vec![vec![], vec![]],
            credited: BTreeMap::new(),
            total0: 0,
            track_total: true,
            next_key: 0,
            step: 0,
            violations: vec![],
            stats: Stats {
                fp: 0xcbf29ce484222325,
                log: sink.then(Vec::new),
                ..Default::default()
            },
            byz: BTreeSet::new(),
            started: vec![],
            faults_on: true,
            published: BTreeMap::new(),
            check_ids: false,
            healing: false,
            focus: crate::run::PROPS.get((cfg.get(64, 25) as usize).wrapping_sub(1)).copied(),
        };
        let rot = cfg.get(3, 8) as usize;
        let decs: Vec<u8> = (0..n_sol)
            .map(|i| DECIMALS[cfg.get(4 + i, 8) as usize])
            .collect();
        // Whole tokens that exist in total; must fit u64 on every chain.
        let maxdec = *decs.iter().max().unwrap();
        let fit = (u64::MAX as u128 / pow10(maxdec)).min(4_000_000_000_000);
        let whole = if cfg.get(7, 3) == 2 {
            fit
        } else {
            fit.min(1_000_000)
        };
        let share = (whole / (n_sol + n_evm) as u128).max(1);
        for i in 0..n_evm {
            let chain = CHAIN_IDS[(rot + n_sol + i) % 8];
            let twin = cfg.get(72, 3) == 2;
            let decimals = [18u8, 6, 8, 0][cfg.get(if twin { 8 } else { 8 + i }, 4) as usize];
            let at = if twin { 0 } else { chain };
            // When nothing is locked anywhere, an EVM chain may hold far more
            // than fits elsewhere, so that overflow at the receiver is real.
            let circ = if !hub && cfg.get(10, 4) == 3 {
                u64::MAX as u128 * pow10(18 - decimals.min(8)) / pow10(18 - decimals)
            } else {
                share * pow10(decimals)
            };
            w.evms.push(Evm {
                chain,
                decimals,
                circulating: circ,
                manager: hashv(&[b"evm-manager", &at.to_be_bytes()]).to_bytes(),
                token: hashv(&[b"evm-token", &at.to_be_bytes()]).to_bytes(),
                seq: 0,
                twin,
                processed: BTreeMap::new(),
            });
        }
        for i in 0..n_sol {
            let base = 16 + i * 16;
            let g = |k: usize, n: u64| cfg.get(base + k, n);
            let chain = CHAIN_IDS[(rot + i) % 8];
            let burning = !(hub && i == 0);
            let kind = match g(0, 8) {
                0..=2 => TokKind::Spl,
                3 | 4 => TokKind::T22,
                5 | 6 => TokKind::T22Hook,
                _ => TokKind::T22Fee,
            };
            // A fee token has value leaking into withheld fees by design.
            let kind = if kind == TokKind::T22Fee && cfg.get(11, 2) == 0 {
                TokKind::T22
            } else {
                kind
            };
            let skew = [0i64, 17, 3600, 86400, 5_000_000][g(1, 5) as usize];
            // mostly today, sometimes about to leave 31 or 32 bits, or a young chain
            let epoch = match cfg.get(75, 12) {
                1 => (1i64 << 31) - 40_000,
                2 => (1i64 << 32) - 40_000,
                3 => 10_000_000,
                _ => 1_700_000_000,
            };
            let mut l = Ledger::new(programs.clone(), epoch + skew);
            let fee_bp = [100u16, 1, 10_000][g(2, 3) as usize];
            let max_fee = [1_000_000u64, 1, u64::MAX][g(3, 3) as usize];
            let mint = named("mint", i as u64);
            let auth = named("mint-authority", i as u64);
            for k in 0..USERS {
                l.airdrop(&user(k), 1_000_000_000_000);
            }
            for k in [attacker(), qowner(), named("deployer", 0)] {
                l.airdrop(&k, 1_000_000_000_000);
            }
            for k in 0..3 {
                l.airdrop(&payer(k), 1_000_000_000_000);
                l.airdrop(&owner_key(k), 1_000_000_000_000);
                l.airdrop(&qassistant(k), 1_000_000_000_000);
            }
            l.airdrop(&qfee(0), 1_000_000_000);
            l.airdrop(&qfee(1), 1_000_000_000);
            l.airdrop(&governance_pda(), 1_000_000_000_000);
            let program = make_mint(&mut l, kind, mint, decs[i], auth, fee_bp, max_fee);
            let tok = Tok {
                mint,
                program,
                decimals: decs[i],
                hook: kind == TokKind::T22Hook,
            };
            let other_mint = named("other-mint", i as u64);
            let okind = if kind == TokKind::Spl {
                TokKind::Spl
            } else {
                TokKind::T22
            };
            make_mint(&mut l, okind, other_mint, decs[i], auth, 0, 0);
            make_mint(&mut l, okind, named("empty-mint", 0), decs[i], auth, 0, 0);
            let other = Tok {
                mint: other_mint,
                hook: false,
                ..tok.clone()
            };
            let p0 = payer(0);
            let mut ixs = vec![];
            for k in 0..USERS {
                // the last user has no token account yet
                if k + 1 < USERS {
                    ixs.push(create_ata(&tok, p0, user(k)));
                }
            }
            ixs.push(create_ata(&tok, p0, attacker()));
            ixs.push(create_ata(&tok, p0, token_authority()));
            ixs.push(create_ata(&other, p0, attacker()));
            ixs.push(create_ata(&other, p0, token_authority()));
            let r = l.exec(&Tx::new(ixs, &[p0]));
            assert!(r.ok, "atas: {}", r.err);
            // The manager's authority may own further accounts of the token.
            let (lam, d) = {
                let x = l.get(&tok.custody()).unwrap();
                (x.lamports(), x.data().to_vec())
            };
            l.put(aux_vault(), lam, d, program);
            let units = (share * pow10(decs[i])) as u64;
            mint_to(&mut l, &tok, aux_vault(), auth, units / 16);
            mint_to(&mut l, &tok, tok.ata(&user(0)), auth, units / 2);
            mint_to(&mut l, &tok, tok.ata(&user(1)), auth, units / 4);
            mint_to(&mut l, &tok, tok.ata(&user(2)), auth, units / 8);
            mint_to(&mut l, &other, other.ata(&attacker()), auth, units / 4 + 1);
            mint_to(&mut l, &other, other.ata(&token_authority()), auth, units / 4 + 1);
            if !burning {
                // What circulates elsewhere is backed by what is locked here.
                let backing = share * (n_sol + n_evm - 1) as u128 * pow10(decs[i]);
                // A deployment can also be under-collateralised (tokens issued elsewhere).
                let backing = match cfg.get(71, 16) {
                    14 => backing / 50,
                    15 => 0,
                    _ => backing,
                };
                mint_to(&mut l, &tok, tok.custody(), auth, backing as u64);
                // The program may be able to mint and still be set up to lock.
                if cfg.get(76, 4) == 3 {
                    set_mint_authority(&mut l, &tok, auth, token_authority());
                }
            } else {
                set_mint_authority(&mut l, &tok, auth, token_authority());
            }
            if tok.hook {
                let mut data = disc("initialize_extra_account_meta_list").to_vec();
                data.truncate(8);
                let r = l.exec(&Tx::new(
                    vec![Instruction {
                        program_id: hook_id(),
                        accounts: vec![
                            AccountMeta::new(p0, true),
                            AccountMeta::new(hook_metas(&mint), false),
                            AccountMeta::new_readonly(mint, false),
                            AccountMeta::new_readonly(program, false),
                            AccountMeta::new_readonly(spl_associated_token_account::id(), false),
                            AccountMeta::new(hook_counter(), false),
                            AccountMeta::new_readonly(system_program::id(), false),
                        ],
                        data,
                    }],
                    &[p0],
                ));
                assert!(r.ok, "hook: {}", r.err);
            }
            // core bridge
            let fee = [100u64, 0, 5_000_000][g(4, 3) as usize];
            let fc_rent = l.rent.minimum_balance(0);
            l.put(fee_collector(), fc_rent, vec![], core_bridge_id());
            let mut d = 0u32.to_le_bytes().to_vec();
            d.extend_from_slice(&fc_rent.to_le_bytes());
            d.extend_from_slice(&86400u32.to_le_bytes());
            d.extend_from_slice(&fee.to_le_bytes());
            l.put(bridge(), 1_057_920, d, core_bridge_id());
            // program data
            let d = program_data_bytes(Some(owner_key(0)));
            let lam = l.rent.minimum_balance(d.len());
            l.put(
                program_data(&manager_id()),
                lam,
                d,
                solana_sdk::bpf_loader_upgradeable::id(),
            );
            l.put(
                foreign_program_data(),
                lam,
                program_data_bytes(Some(attacker())),
                solana_sdk::bpf_loader_upgradeable::id(),
            );
            let d = program_data_bytes(Some(qowner()));
            l.put(
                program_data(&quoter_id()),
                lam,
                d,
                solana_sdk::bpf_loader_upgradeable::id(),
            );
            let limit0 = limit_choice(g(5, 8), units);
            w.sols.push(Sol {
                l,
                tok,
                kind,
                chain,
                burning,
                limit0,
                skew,
                fee_bp,
                max_fee,
                other_mint,
                core_msgs: vec![],
                luts: vec![],
                posted: BTreeSet::new(),
                donated: 0,
                tmsgs: vec![],
                inbox: vec![],
                outbox: vec![],
                requests: vec![],
                partitioned: false,
                auth_moved: false,
                relay_items: vec![],
            });
        }
        w.started = w.sols.iter().map(|s| s.now()).collect();
        w
    }

    pub fn violate(&mut self, props: &[P], what: String) {
        let mut v: Vec<P> = props.to_vec();
        v.sort();
        v.dedup();
        if v.is_empty() {
            v.push("C24");
        }
        if let Some(l) = &mut self.stats.log {
            l.push(format!("  !! {v:?} {what}"));
        }
        self.violations.push(Violation {
            props: v,
            what,
            step: self.step,
        });
    }

    pub fn fresh(&mut self, name: &str) -> Pubkey {
        self.next_key += 1;
        named(name, self.next_key)
    }

    pub fn sol_by_chain(&self, chain: u16) -> Option<usize> {
        self.sols.iter().position(|s| s.chain == chain)
    }
    pub fn evm_by_chain(&self, chain: u16) -> Option<usize> {
        self.evms.iter().position(|s| s.chain == chain)
    }
    /// (chain id, decimals, manager address) of every chain.
    pub fn all_chains(&self) -> Vec<(u16, u8, [u8; 32])> {
        self.sols
            .iter()
            .map(|s| (s.chain, s.tok.decimals, manager_id().to_bytes()))
            .chain(self.evms.iter().map(|e| (e.chain, e.decimals, e.manager)))
            .collect()
    }
    /// The wormhole emitter of transceiver `t` on `chain`.
    pub fn emitter_on(&self, chain: u16, t: &Pubkey) -> Option<[u8; 32]> {
        if self.sol_by_chain(chain).is_some() {
            return Some(emitter(t).to_bytes());
        }
        self.evm_by_chain(chain).map(|i| self.evms[i].emitter(t))
    }

    pub fn is_delivered(&self, s: &Sent) -> bool {
        if let Some(d) = self.sol_by_chain(s.msg.to_chain) {
            let k = inbox_item(s.src_chain, &s.msg.manager_msg());
            return matches!(
                self.sols[d].inbox_item(&k),
                Some(InboxItem {
                    status: Status::Released,
                    ..
                })
            );
        }
        if let Some(e) = self.evm_by_chain(s.msg.to_chain) {
            return self.evms[e].processed.contains_key(&(s.src_chain, s.msg.id));
        }
        false
    }

    /// Everything that exists, in the 18-decimal unit: circulating everywhere
    /// plus what is in flight.
    pub fn total(&self) -> i128 {
        let mut t: i128 = 0;
        for s in &self.sols {
            t += s.circulating();
        }
        for e in &self.evms {
            t += (e.circulating * pow10(18 - e.decimals)) as i128;
        }
        for s in &self.sent {
            if !self.is_delivered(s) {
                t += s.norm as i128;
            }
        }
        t
    }
}

pub fn limit_choice(k: u64, units: u64) -> u64 {
    match k {
        0 => u64::MAX,
        1 => units / 100 + 1,
        2 => units / 3 + 1,
        3 => 86_400_000,
        4 => 7,
        5 => 0,
        6 => units,
        _ => units / 10_000 + 1,
    }
}
