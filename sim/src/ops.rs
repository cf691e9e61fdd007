//! The schedule: a list of raw operations, each resolved against the world at
//! the moment it runs. Zero is always the simplest choice, so the minimiser can
//! drop operations and zero parameters freely.

use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::{account::WritableAccount, hash::hashv, pubkey::Pubkey, system_program};

use crate::{acts::*, ix, ix::*, judge::perform, svm::*, world::*};

pub const NP: usize = 9;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub k: K,
    pub p: [u64; NP],
}

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum K { $($k),* }
        pub const KINDS: &[K] = &[$(K::$k),*];
        impl K {
            pub fn name(self) -> &'static str { match self { $(K::$k => stringify!($k)),* } }
            pub fn parse(s: &str) -> Option<K> { KINDS.iter().copied().find(|k| k.name() == s) }
        }
    };
}

kinds!(
    Transfer, Approve, UseApproval, ReleaseOut, Mark, MarkDirect, Sign, PostVaa, Receive, Attest,
    Redeem, ReleaseIn, EvmSend, EvmDeliver, Advance, Pause, SetPeer, SetOutLimit, SetInLimit,
    Register, RegisterMany, Ownership, Claim, Reinit, Lut, SetWhPeer, Broadcast, QAdmin, QRequest,
    QClose, GovMake, GovRun, ForgeVaa, Prefund, BridgeFee, Toggle, Threshold, Donate, Pay, Scan,
    RelayStep, Crash, Partition, Flush, DropTx, Carry, Hook,
);

/// Two of the parameters modify how the transaction reaches the ledger.
const M: usize = 7;

fn pick<T: Clone>(v: &[T], i: u64) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        // 0 is the most recent one
        let n = v.len() as u64;
        Some(v[(n - 1 - i % n) as usize].clone())
    }
}

fn submit(w: &mut World, act: Act, op: &Op) {
    let raw = op.p[M + 1];
    match op.p[M] % 16 {
        // killed at the n-th cross-program call
        1 | 2 => {
            perform(w, &act, Some(raw % 5));
        }
        // held back, to be delivered later (perhaps more than once)
        3 => {
            w.stats.fault("transaction delayed");
            w.mempool.push(act);
        }
        // delivered twice
        4 => {
            w.stats.fault("transaction duplicated");
            perform(w, &act, None);
            perform(w, &act, None);
        }
        // one account replaced by something that must not be accepted
        5 | 6 | 7 => {
            let p = act.plan(w);
            let mut v = vec![];
            if !p.tx.ixs.is_empty() {
                if raw % 4 != 3 && w.focus.is_some() {
                    v = sub_choices(w, &p, w.focus);
                }
                if v.is_empty() {
                    v = sub_choices(w, &p, None);
                }
            }
            drop(p);
            match pick(&v, raw / 4) {
                Some((slot, kind)) => {
                    let sub = Act::Sub { inner: Box::new(act), slot, kind };
                    perform(w, &sub, None);
                }
                None => {
                    perform(w, &act, None);
                }
            }
        }
        // every account of the transaction in turn, none of which may be accepted
        8 if raw % 4 == 0 => {
            let p = act.plan(w);
            let mut all = vec![];
            if p.reasons.is_empty() && !p.tx.ixs.is_empty() {
                all = sub_choices(w, &p, None);
            }
            drop(p);
            for (slot, kind) in all {
                if !act.plan(w).reasons.is_empty() {
                    return;
                }
                let sub = Act::Sub { inner: Box::new(act.clone()), slot, kind };
                perform(w, &sub, None);
            }
            perform(w, &act, None);
        }
        9 => {
            w.stats.fault("transaction dropped");
        }
        _ => {
            perform(w, &act, None);
        }
    }
}

/// Admin acts by the governance PDA have to come through a signed message.
fn admin(w: &mut World, act: Act, op: &Op) {
    let g = governance_pda();
    let p = act.plan(w);
    if p.tx.signers.contains(&g) {
        let i = gov_call(w, &act, op.p[M + 1] & 1 == 1);
        let v = make_gov(w, Some(act.clone()), i, 0, op.p[M + 1] / 2);
        w.gov_vaas[v].posted.insert(p.c);
        put_gov(w, p.c, v);
        let a = Act::Gov {
            c: p.c,
            vaa: v,
            payer: payer(0),
            alt_replay: false,
            cosign: true,
        };
        return submit(w, a, op);
    }
    submit(w, act, op)
}

fn signer_of(w: &World, c: usize, x: u64) -> Pubkey {
    let owner = w.sols[c].config().map_or(owner_key(0), |c| c.owner);
    match x % 12 {
        8 => attacker(),
        9 => w.sols[c]
            .config()
            .and_then(|c| c.pending_owner)
            .unwrap_or(owner_key(1)),
        10 => user(0),
        11 => owner_key(2),
        _ => owner,
    }
}

fn amount_choice(w: &World, c: usize, owner: &Pubkey, chain: u16, kind: u64, raw: u64) -> u64 {
    let s = &w.sols[c];
    let bal = s.balance(&s.tok.ata(owner));
    let pd = s.peer(chain).map_or(8, |p| p.decimals);
    let unit = pow10(s.tok.decimals - 8.min(s.tok.decimals).min(pd)).min(u64::MAX as u128) as u64;
    let cap = s.orl().map_or(0, |r| r.capacity(s.now()));
    let icap = s.irl(chain).map_or(0, |r| r.capacity(s.now()));
    match kind % 16 {
        0 | 1 => (bal / 1000).max(unit),
        2 => unit,
        3 => raw % bal.max(1),
        4 => cap.min(bal),
        5 => cap.saturating_add(1).min(bal),
        6 => cap.saturating_sub(1),
        7 => (raw % unit.max(1)).min(bal),
        8 => bal,
        9 => bal.saturating_add(1),
        10 => cap.saturating_add(unit).min(bal),
        11 => 0,
        12 => [u64::MAX, u64::MAX - 1, 1 << 63, bal >> 32 << 32, (bal >> 32 << 32) | 1, 1 << 32][raw as usize % 6],
        13 => unit.saturating_mul(raw % 1000).saturating_add(raw % unit.max(1)).min(bal),
        14 => (cap / unit * unit).saturating_add(raw % unit.max(1)).min(bal),
        _ => icap.saturating_add(1).min(bal),
    }
}

fn recipient_choice(w: &World, chain: u16, x: u64) -> [u8; 32] {
    if w.sol_by_chain(chain).is_some() {
        match x % 12 {
            0..=5 => user(x % USERS).to_bytes(),
            6 => attacker().to_bytes(),
            7 => named("stranger", x % 5).to_bytes(),
            8 => token_authority().to_bytes(),
            9 => owner_key(0).to_bytes(),
            10 if x / 12 % 4 == 3 => [0; 32],
            _ => user(x / 12 % USERS).to_bytes(),
        }
    } else {
        match x % 24 {
            23 => [0; 32],
            22 => [255; 32],
            _ => hashv(&[b"evm-user", &(x % 5).to_le_bytes()]).to_bytes(),
        }
    }
}

/// Whoever cares to pay for a transaction; nothing may depend on who it is.
fn any_payer(w: &World, c: usize, x: u64) -> Pubkey {
    let owner = w.sols[c].config().map(|x| x.owner);
    match x % 8 {
        0 => attacker(),
        1 => user(x / 8 % 3),
        2 => owner.filter(|o| (0..3).any(|k| owner_key(k) == *o)).unwrap_or(payer(0)),
        k => payer(k % 3),
    }
}

fn chain_choice(w: &World, c: usize, x: u64) -> u16 {
    let v: Vec<u16> = w
        .all_chains()
        .iter()
        .map(|x| x.0)
        .filter(|x| *x != w.sols[c].chain)
        .collect();
    let n = v.len() as u64;
    match x % 40 {
        37 => w.sols[c].chain,
        38 => 7777,
        39 => v[0].swap_bytes(),
        _ => v[(x / 40 % n) as usize],
    }
}

fn limit_pick(w: &World, c: usize, x: u64) -> u64 {
    let s = &w.sols[c];
    let units = s.supply() / 4 + 1;
    match x % 12 {
        8 => s.orl().map_or(0, |r| r.limit.saturating_sub(1)),
        9 => s.orl().map_or(0, |r| r.limit.saturating_add(1)),
        10 => x / 12 % units,
        11 => 86400 * (1 + x / 12 % 1000),
        k => limit_choice(k, units),
    }
}

pub fn transceiver_set(cfg: &WorldCfg) -> Vec<Pubkey> {
    let mut v = vec![manager_id()];
    let b = cfg.get(12, 8);
    if b & 1 == 1 {
        v.push(transceiver_id());
    }
    if b & 2 == 2 {
        v.push(probe_id());
    }
    if b & 4 == 4 {
        v.push(probe2_id());
    }
    v
}

/// Bring up the deployment through the real instructions.
pub fn setup(w: &mut World) {
    let cfg = w.cfg.clone();
    let set = transceiver_set(&cfg);
    let n = set.len() as u64;
    let chains = w.all_chains();
    let mut min_thr = n;
    w.track_total = false;
    for c in 0..w.sols.len() {
        let g = |k: usize, m: u64| cfg.get(16 + c * 16 + k, m);
        let (chain, limit, burning) = {
            let s = &w.sols[c];
            (s.chain, s.limit0, s.burning)
        };
        // Somebody tries to take over the deployment before its owner sets it up.
        let pre = g(12, 20);
        if pre == 1 {
            let a = Act::Initialize { c, deployer: attacker(), mint: 0, chain, limit, burning };
            perform(w, &a, None);
        }
        if pre == 2 {
            let a = Act::Initialize { c, deployer: owner_key(0), mint: 0, chain, limit, burning: true };
            if !burning && cfg.get(76, 4) != 3 {
                perform(w, &a, None);
            }
        }
        if pre == 3 {
            let s = &mut w.sols[c];
            for k in [ix::config(), outbox_rl()] {
                s.l.airdrop(&k, 1_000_000);
            }
            w.stats.fault("account pre-funded by a stranger");
        }
        let init = Act::Initialize { c, deployer: owner_key(0), mint: 0, chain, limit, burning };
        if pre == 4 {
            for slot in 0..9 {
                for kind in 0..4 {
                    let sub = Act::Sub { inner: Box::new(init.clone()), slot, kind };
                    perform(w, &sub, None);
                }
            }
            for mask in 1..4 {
                let sub = Act::Sub { inner: Box::new(init.clone()), slot: mask, kind: 17 };
                perform(w, &sub, None);
            }
        }
        if pre == 5 {
            perform(w, &init, Some(g(13, 6)));
        }
        if pre == 6 {
            let a = Act::Initialize { c, deployer: attacker(), mint: 16, chain, limit, burning };
            perform(w, &a, None);
        }
        if pre == 7 {
            // as if the program had been made immutable, or handed on
            let k = program_data(&manager_id());
            let was = w.sols[c].l.data(&k).unwrap().to_vec();
            for holder in [None, Some(owner_key(1)), Some(upgrade_lock()), Some(manager_id())] {
                w.sols[c].edit(&k, |x| *x = program_data_bytes(holder));
                for deployer in [attacker(), owner_key(0)] {
                    let a = Act::Initialize { c, deployer, mint: 0, chain, limit, burning };
                    perform(w, &a, None);
                }
            }
            w.sols[c].edit(&k, |x| *x = was);
        }
        if pre == 8 {
            // a mint nobody can mint, or somebody other than the program can
            let k = w.sols[c].tok.mint;
            let was = w.sols[c].l.data(&k).unwrap().to_vec();
            let holders = [
                None,
                Some(owner_key(0)),
                Some(payer(0)),
                Some(attacker()),
                Some(ix::config()),
                Some(manager_id()),
                Some(w.sols[c].tok.custody()),
                Some(k),
                Some(Pubkey::default()),
            ];
            for h in holders {
                w.sols[c].edit(&k, |x| {
                    x[..36].fill(0);
                    if let Some(h) = h {
                        x[0] = 1;
                        x[4..36].copy_from_slice(h.as_ref());
                    } else {
                        // only what is left of the authority that was given up
                        x[4..36].copy_from_slice(token_authority().as_ref());
                    }
                    // the power to freeze is not the power to mint
                    x[46..82].fill(0);
                    x[46] = 1;
                    x[50..82].copy_from_slice(token_authority().as_ref());
                });
                let a = Act::Initialize { c, deployer: owner_key(0), mint: 0, chain, limit, burning: true };
                perform(w, &a, None);
            }
            w.sols[c].edit(&k, |x| *x = was);
        }
        if pre == 9 {
            let a = Act::Initialize { c, deployer: owner_key(0), mint: 2, chain, limit, burning: true };
            perform(w, &a, None);
        }
        if (11..14).contains(&pre) {
            // The same program set up with other arguments, on a copy of the ledger.
            let was = w.sols[c].clone();
            let x = g(13, 1 << 30);
            let chain = [0, 1, 255, 256, 0x0100, 0x7fff, 0x8000, u16::MAX][(x % 8) as usize];
            let limit = [0, 1, u64::MAX, u64::MAX / 2, 1 << 32, u32::MAX as u64, 86_399, limit][(x / 8 % 8) as usize];
            let a = Act::Initialize { c, deployer: owner_key(0), mint: 0, chain, limit, burning };
            (w.sols[c].chain, w.sols[c].limit0) = (chain, limit);
            perform(w, &a, None);
            w.sols[c] = was;
        }
        perform(w, &init, None);
        if pre == 10 {
            // Strangers are quick to try a deployment nobody has configured yet.
            for i in 0..8 {
                let a = admin_act(w, c, attacker(), i, g(13, 1000));
                if let Act::Register { t, .. } = &a {
                    make_program(w, c, *t);
                }
                perform(w, &a, None);
            }
            perform(w, &Act::Claim { c, signer: attacker() }, None);
        }
        let mut order = set.clone();
        let r = g(7, n) as usize;
        order.rotate_left(r);
        if g(8, 2) == 1 {
            order.reverse();
        }
        // Transceivers registered long ago push the ids of the ones in use anywhere
        // in the range of the bitmap.
        let before = match cfg.get(66, 8) {
            k if k < 4 => 0,
            4 | 5 => 1 + cfg.get(67, 6),
            6 => [7, 8, 15, 16, 31, 32, 60, 61, 62, 63, 64][cfg.get(67, 11) as usize],
            _ => [65, 95, 96, 100, 122, 123, 124][cfg.get(67, 7) as usize],
        };
        for i in 0..before {
            let t = named("old", i);
            make_program(w, c, t);
            w.check_ids = i + 1 == before;
            perform(w, &Act::Register { c, signer: owner_key(0), t }, None);
        }
        if before > 0 {
            w.stats.fault("earlier transceivers registered");
            if cfg.get(68, 4) == 0 {
                let bits = cfg.get(69, u64::MAX) as u128 | (cfg.get(70, u64::MAX) as u128) << 64;
                set_enabled(w, c, bits & ((1u128 << before) - 1));
            }
        }
        for t in &order {
            w.check_ids = true;
            perform(w, &Act::Register { c, signer: owner_key(0), t: *t }, None);
        }
        // No instruction changes the threshold yet; an upgrade would.
        let thr = 1 + g(6, n);
        min_thr = min_thr.min(thr);
        set_threshold(w, c, thr as u8);
        let skip = g(9, 12);
        for (i, (ch, dec, addr)) in chains.iter().enumerate() {
            if *ch == chain || skip == i as u64 + 8 {
                continue;
            }
            let limit = limit_choice(g(10, 8), w.sols[c].supply() / 4);
            perform(
                w,
                &Act::SetPeer { c, signer: owner_key(0), chain: *ch, address: *addr, limit, decimals: *dec },
                None,
            );
            for t in [manager_id(), transceiver_id()] {
                if set.contains(&t) {
                    let address = w.emitter_on(*ch, &t).unwrap();
                    perform(
                        w,
                        &Act::SetWhPeer { c, signer: owner_key(0), t, chain: *ch, address },
                        None,
                    );
                }
            }
        }
        if g(11, 3) == 0 {
            quoter_setup(w, c);
        }
        if g(14, 6) == 5 {
            let a = Act::TransferOwnership { c, signer: owner_key(0), new: governance_pda(), one_step: true, cosign: false };
            perform(w, &a, None);
        }
    }
    let probes: Vec<Pubkey> = [probe2_id(), probe_id()]
        .into_iter()
        .filter(|p| set.contains(p))
        .collect();
    let byz = cfg.get(13, 3).min(min_thr.saturating_sub(1)) as usize;
    w.byz = probes.into_iter().take(byz).collect();
    w.total0 = w.total();
    w.track_total = true;
}

fn quoter_setup(w: &mut World, c: usize) {
    perform(w, &Act::QInit { c, owner: qowner(), fee_recipient: qfee(0), foreign: false }, None);
    perform(w, &Act::QAssistant { c, signer: qowner(), to: Some(qassistant(0)) }, None);
    let id = w.sols[c].reg(&manager_id()).map_or(0, |r| r.id);
    perform(
        w,
        &Act::QRegNtt { c, signer: qowner(), program: manager_id(), index: id, gas: 250_000 },
        None,
    );
    perform(w, &Act::QSolPrice { c, signer: qassistant(0), price: 100_000_000 }, None);
    for ch in w.all_chains() {
        if ch.0 == w.sols[c].chain {
            continue;
        }
        perform(w, &Act::QRegChain { c, signer: qassistant(0), chain: ch.0 }, None);
        perform(
            w,
            &Act::QChainPrices { c, signer: qassistant(0), chain: ch.0, native: 3_000_000_000, gas: 30_000 },
            None,
        );
        perform(
            w,
            &Act::QChainParams { c, signer: qassistant(0), chain: ch.0, max: 5_000_000_000, base: 500_000 },
            None,
        );
    }
}

/// Undo what would make every relay request fail.
fn quoter_ready(w: &mut World, c: usize, chain: u16) {
    let signer = qowner();
    let s = &w.sols[c];
    let inst = match s.l.data(&q_instance()).and_then(QInstance::decode) {
        Some(i) => i,
        None => return,
    };
    let ntt = s.l.data(&q_ntt(&manager_id())).and_then(QNtt::decode);
    let id = s.reg(&manager_id()).map_or(0, |r| r.id);
    let ch = s.l.data(&q_chain(chain)).and_then(QChain::decode);
    let mut v = vec![];
    if ntt.is_none() {
        v.push(Act::QRegNtt { c, signer, program: manager_id(), index: id, gas: 250_000 });
    }
    if inst.sol_price == 0 {
        v.push(Act::QSolPrice { c, signer, price: 100_000_000 });
    }
    match ch {
        None => {
            v.push(Act::QRegChain { c, signer, chain });
            v.push(Act::QChainParams { c, signer, chain, max: 5_000_000_000, base: 500_000 });
        }
        Some(x) if x.base == u64::MAX => {
            v.push(Act::QChainParams { c, signer, chain, max: 5_000_000_000, base: 500_000 });
        }
        _ => {}
    }
    for a in v {
        perform(w, &a, None);
    }
}

/// Prices at the far ends, set by the quoter's owner.
fn quoter_extreme(w: &mut World, c: usize, chain: u16, mut x: u64) {
    let signer = qowner();
    let mut next = |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    const SOL: [u64; 8] = [1, 100_000_000, 1_000_000_000, u64::MAX, u64::MAX / 2, 1 << 60, 150_000_000, 7];
    const BASE: [u64; 6] = [0, 1, 500_000, u64::MAX, u64::MAX - 1, 1 << 45];
    const NATIVE: [u64; 6] = [0, 1, 3_000_000_000, u64::MAX, 1 << 50, 999_999];
    const GAS: [u64; 6] = [0, 1, 30_000_000_000, u64::MAX, 1 << 45, 999_999_999];
    const DROP: [u64; 5] = [0, 1, 5_000_000_000, u64::MAX, u64::MAX - 1];
    let sol = SOL[next(8) as usize];
    let base = BASE[next(6) as usize];
    let native = NATIVE[next(6) as usize];
    let gas = GAS[next(6) as usize];
    let max = DROP[next(5) as usize];
    let cost = [250_000u32, 0, u32::MAX, 1][next(4) as usize];
    let index = w.sols[c].reg(&manager_id()).map_or(0, |r| r.id);
    let mut v = vec![
        Act::QRegChain { c, signer, chain },
        Act::QSolPrice { c, signer, price: sol },
        Act::QChainPrices { c, signer, chain, native, gas },
        Act::QChainParams { c, signer, chain, max, base },
    ];
    if next(2) == 0 {
        v.push(Act::QDeregNtt { c, signer, program: manager_id() });
    }
    v.push(Act::QRegNtt { c, signer, program: manager_id(), index, gas: cost });
    for a in v {
        if a.plan(w).reasons.is_empty() {
            perform(w, &a, None);
        }
    }
}

fn set_threshold(w: &mut World, c: usize, thr: u8) {
    if w.sols[c].config().is_none() {
        return;
    }
    w.sols[c].edit(&ix::config(), |d| {
        let o = Config::threshold_offset(d);
        d[o] = thr;
    });
}

fn set_enabled(w: &mut World, c: usize, bits: u128) {
    if w.sols[c].config().is_none() {
        return;
    }
    w.sols[c].edit(&ix::config(), |d| {
        let o = Config::threshold_offset(d) + 1;
        d[o..o + 16].copy_from_slice(&bits.to_le_bytes());
    });
}

// ------------------------------------------------------------------- network

fn sign(w: &mut World, i: usize) -> Option<usize> {
    let (_, _, p) = w.unsigned.remove(i);
    let t = all_transceivers().into_iter().find(|t| {
        w.all_chains()
            .iter()
            .any(|ch| ch.0 == p.emitter_chain && w.emitter_on(ch.0, t) == Some(p.emitter))
    })?;
    w.vaas.push(Vaa { p, t, honest: true });
    Some(w.vaas.len() - 1)
}

pub fn vaa_key(i: usize) -> Pubkey {
    named("vaa", i as u64)
}

fn post_vaa(w: &mut World, c: usize, i: usize) {
    let s = &mut w.sols[c];
    if s.posted.insert(i) {
        let d = w.vaas[i].p.encode_vaa(s.l.now() as u32);
        let lam = s.l.rent.minimum_balance(d.len());
        s.l.put(vaa_key(i), lam, d, core_bridge_id());
    }
}

/// `fine`: the contracts were told that our token has many decimals, so what
/// they send may be finer than our token can express (and rounds down here).
fn evm_send(w: &mut World, e: usize, to_chain: u16, to: [u8; 32], amount: u128, extra: bool, fine: bool) {
    let (dec, dest) = match w.all_chains().iter().find(|x| x.0 == to_chain) {
        Some(x) => (x.1, x.2),
        None => return,
    };
    let ev = &w.evms[e];
    if to_chain == ev.chain || amount > ev.circulating {
        return;
    }
    let fine = fine && w.sol_by_chain(to_chain).is_some();
    let d = 8.min(ev.decimals).min(if fine { 8 } else { dec });
    let f = pow10(ev.decimals - d);
    let t = amount / f;
    let t64 = match u64::try_from(t) {
        Ok(x) => x,
        Err(_) => return,
    };
    let ev = &mut w.evms[e];
    ev.circulating -= t * f;
    ev.seq += 1;
    // The contracts number their messages.
    let mut id = [0u8; 32];
    id[24..].copy_from_slice(&ev.seq.to_be_bytes());
    let msg = Msg {
        source_manager: ev.manager,
        recipient_manager: dest,
        id,
        sender: hashv(&[b"evm-user", &0u64.to_le_bytes()]).to_bytes(),
        decimals: d,
        amount: t64,
        source_token: ev.token,
        to,
        to_chain,
    };
    let ev = ev.clone();
    let payload = if extra { msg.wire_with(&[1, 2, 3, 4, 5]) } else { msg.wire() };
    let set = transceiver_set(&w.cfg);
    for t in [manager_id(), transceiver_id()] {
        if set.contains(&t) {
            w.unsigned.push((
                1000 + e,
                Pubkey::default(),
                Posted {
                    finality: 1,
                    sequence: ev.seq,
                    emitter_chain: ev.chain,
                    emitter: ev.emitter(&t),
                    payload: payload.clone(),
                },
            ));
        }
    }
    let mut norm = t64 as u128 * pow10(18 - d);
    let lost = if d > dec { norm % pow10(18 - dec) } else { 0 };
    norm -= lost;
    w.total0 -= lost as i128;
    w.sent.push(Sent {
        src_chain: ev.chain,
        norm,
        amount: t64,
        at: 0,
        msg,
    });
    if let Some(l) = &mut w.stats.log {
        l.push(format!("  evm {} sends {t64}e-{d} to chain {to_chain}", ev.chain));
    }
}

/// The reference EVM side: credits each authentic message once.
fn evm_deliver(w: &mut World, i: usize) {
    let v = w.vaas[i].clone();
    let m = match Msg::parse(&v.p.payload) {
        Some(m) => m,
        None => return,
    };
    let e = match w.evm_by_chain(m.to_chain) {
        Some(e) => e,
        None => return,
    };
    if w.emitter_on(v.p.emitter_chain, &v.t) != Some(v.p.emitter) || m.recipient_manager != w.evms[e].manager {
        return;
    }
    evm_credit(w, e, v.p.emitter_chain, &m);
}

fn evm_credit(w: &mut World, e: usize, src: u16, m: &Msg) {
    if w.evms[e].processed.contains_key(&(src, m.id)) {
        return;
    }
    let ev = &mut w.evms[e];
    let amt = if ev.decimals >= m.decimals {
        m.amount as u128 * pow10(ev.decimals - m.decimals)
    } else {
        m.amount as u128 / pow10(m.decimals - ev.decimals)
    };
    ev.circulating += amt;
    ev.processed.insert((src, m.id), 1);
    w.stats.delivered += 1;
    if let Some(l) = &mut w.stats.log {
        l.push(format!("  evm {} credits {amt}", w.evms[e].chain));
    }
    let t = w.total();
    if t != w.total0 {
        let d = t - w.total0;
        w.total0 = t;
        w.violate(
            &["C01", "C11", "C09"],
            format!("total value changed by {d} (18-decimal units) on delivery to another chain"),
        );
    }
}

/// Messages a harness transceiver (off-chain part) carried to `c`.
fn carried(w: &World, c: usize, t: &Pubkey) -> Vec<usize> {
    let chain = w.sols[c].chain;
    (0..w.sent.len())
        .filter(|i| {
            let s = &w.sent[*i];
            if s.msg.to_chain != chain {
                return false;
            }
            match w.sol_by_chain(s.src_chain) {
                None => true,
                Some(o) => {
                    let o = &w.sols[o];
                    match (o.item(&Pubkey::new_from_array(s.msg.id)), o.reg(t)) {
                        (Some(it), Some(r)) => it.released >> r.id & 1 == 1,
                        _ => false,
                    }
                }
            }
        })
        .collect()
}

pub fn attest_key(t: &Pubkey, chain: u16, m: &Msg) -> Pubkey {
    Pubkey::new_from_array(
        hashv(&[b"attest", t.as_ref(), &chain.to_be_bytes(), &m.wire()]).to_bytes(),
    )
}

/// What a diligent relayer watching `c` would submit next.
pub fn next_steps(w: &World, c: usize) -> Vec<Act> {
    let mut v = vec![];
    let s = &w.sols[c];
    let cfg = match s.config() {
        Some(c) => c,
        None => return v,
    };
    let now = s.now();
    let pay = payer(1);
    for t in transceiver_set(&w.cfg) {
        if !s.enabled(&t) {
            continue;
        }
        let id = s.reg(&t).unwrap().id;
        for k in &s.outbox {
            if let Some(it) = s.item(k) {
                if it.released >> id & 1 == 0 && it.release_ts <= now {
                    v.push(if t == manager_id() || t == transceiver_id() {
                        Act::ReleaseOut { c, t, item: *k, revert: true, payer: pay }
                    } else {
                        Act::ProbeMark { c, t, item: *k }
                    });
                }
            }
        }
        if t == probe_id() || t == probe2_id() {
            for i in carried(w, c, &t) {
                let m = w.sent[i].msg.clone();
                let from = w.sent[i].src_chain;
                let key = attest_key(&t, from, &m);
                if s.l.get(&key).is_none() {
                    v.push(Act::ProbeAttest { c, t, from, msg: m, key });
                }
            }
        }
    }
    for i in &s.posted {
        let va = &w.vaas[*i];
        if let Some(m) = Msg::parse(&va.p.payload) {
            if m.to_chain == s.chain
                && va.honest
                && s.tpeer(&va.t, va.p.emitter_chain) == Some(va.p.emitter)
                && s.l.owner(&transceiver_message(&va.t, va.p.emitter_chain, &m.id)) != va.t
            {
                v.push(Act::Receive { c, t: va.t, vaa: vaa_key(*i), payer: pay });
            }
        }
    }
    for (t, k) in &s.tmsgs {
        if !s.enabled(t) {
            continue;
        }
        if let Some((from, m)) = s.l.data(k).and_then(Msg::decode_validated) {
            let item = inbox_item(from, &m.manager_msg());
            let id = s.reg(t).unwrap().id;
            let it = s.inbox_item(&item);
            let voted = it.as_ref().map_or(false, |i| i.votes >> id & 1 == 1);
            let pending = it.as_ref().map_or(true, |i| i.status == Status::NotApproved);
            let known = w
                .sent
                .iter()
                .any(|x| x.src_chain == from && x.msg == m);
            let q = it
                .as_ref()
                .map_or(0, |i| (i.votes & cfg.enabled).count_ones())
                + (!voted) as u32
                >= cfg.threshold as u32;
            if pending && known && (!voted || q) {
                v.push(Act::Redeem { c, t: *t, tmsg: *k, payer: pay });
            }
        }
    }
    for k in &s.inbox {
        if let Some(it) = s.inbox_item(k) {
            if matches!(it.status, Status::After(t) if t <= now) {
                v.push(Act::ReleaseIn {
                    c,
                    item: *k,
                    acct: 0,
                    revert: true,
                    wrong_mode: false,
                    create: true,
                    payer: pay,
                });
            }
        }
    }
    v
}

// ---------------------------------------------------------------- governance

/// Some call to a program that accepts any accounts, to see what arrives there.
pub fn gov_any_call(w: &World, c: usize, mut x: u64) -> Instruction {
    let mut next = |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    let n = if next(6) == 0 { 9 + next(32) } else { next(9) };
    let mut accounts = vec![];
    for _ in 0..n {
        let k = match next(12) {
            0 | 1 => sentinel(b"owner"),
            2 | 3 => sentinel(b"payer"),
            4 => governance_pda(),
            5 => user(next(2)),
            6 => owner_key(next(2)),
            7 => payer(1),
            8 => w.sols[c].tok.mint,
            9 => ix::config(),
            10 => named("bystander", next(3)),
            _ => q_instance(),
        };
        accounts.push(AccountMeta { pubkey: k, is_signer: next(3) == 0, is_writable: next(2) == 0 });
        let l = accounts.last_mut().unwrap();
        // only what can sign
        if l.pubkey == w.sols[c].tok.mint || l.pubkey == ix::config() || l.pubkey == q_instance() {
            l.is_signer = false;
        }
    }
    let len = [0, 1, 7, 40, 255, 256, 300, 600, 1100, 2000][next(10) as usize];
    let mut data = vec![if next(8) == 0 { 9 } else { 1 }];
    if next(12) == 0 {
        return Instruction { program_id: probe_id(), accounts, data: vec![] };
    }
    data.extend((0..len).map(|i| (i * 7 + n) as u8));
    Instruction { program_id: probe_id(), accounts, data }
}

pub fn gov_call(w: &World, inner: &Act, literal: bool) -> Instruction {
    let plan = inner.plan(w);
    let mut i = plan.tx.ixs[plan.main].clone();
    for a in i.accounts.iter_mut() {
        if a.pubkey == governance_pda() && !literal {
            a.pubkey = sentinel(b"owner");
        } else if a.pubkey == payer(0) {
            a.pubkey = sentinel(b"payer");
        }
    }
    i
}

pub fn make_gov(w: &mut World, inner: Option<Act>, i: Instruction, variant: u64, seq: u64) -> usize {
    let n = w.gov_vaas.len() as u64 + 1;
    let mut module = gov_module();
    let mut action = 2;
    let mut chain = 1;
    let mut prog = governance_id();
    let mut p = Posted {
        finality: 32,
        sequence: n,
        emitter_chain: 1,
        emitter: governance_emitter(),
        payload: vec![],
    };
    let mut owner = core_bridge_id();
    let mut is_vaa = true;
    let mut bad = None;
    match variant {
        1 => {
            p.emitter = [7; 32];
            bad = Some("not the governance emitter");
        }
        2 => {
            p.emitter_chain = [2, 257, 256, 0][(seq % 4) as usize];
            bad = Some("not the governance chain");
        }
        3 => {
            module[(seq % 32) as usize] ^= 1 << (seq / 32 % 8);
            bad = Some("other module");
        }
        4 => {
            action = 1;
            bad = Some("other action");
        }
        5 => {
            chain = [2, 257, 256, 65535][(seq % 4) as usize];
            bad = Some("addressed to another chain");
        }
        6 => {
            prog = named("other-governance", 0);
            bad = Some("addressed to another governance program");
        }
        7 => owner = probe2_id(),
        8 => is_vaa = false,
        9 => {
            chain = 0;
            bad = Some("addressed to no particular chain");
        }
        10 => {
            action = 0;
            bad = Some("undefined action");
        }
        11 => {
            p.emitter[(seq % 32) as usize] ^= 1 << (seq / 32 % 8);
            bad = Some("not the governance emitter");
        }
        _ => {}
    }
    // Guardians number their messages as they like.
    if n > 1 {
        let prev = w.gov_vaas[(seq / 8 % (n - 1)) as usize].p.sequence;
        let s = match seq % 8 {
            0 => prev.wrapping_add(1 << 8),
            1 => prev.wrapping_add(1 << 16),
            2 => prev.wrapping_add(1 << 32),
            3 => prev ^ 1 << 63,
            4 => prev.swap_bytes(),
            _ => n,
        };
        if w.gov_vaas.iter().all(|g| g.p.sequence != s) {
            p.sequence = s;
        } else if w.gov_vaas.iter().any(|g| g.p.sequence == p.sequence) {
            p.sequence = 1_000_000_000 + n;
        }
    }
    p.payload = gov_message(&prog, &module, action, chain, &i);
    if variant == 12 {
        let n = p.payload.len();
        let cut = 1 + if seq % 4 == 0 { seq / 4 % 90 } else { seq / 4 % 8 } as usize;
        p.payload.truncate(n - cut);
        bad = Some("cut short");
    }
    w.gov_vaas.push(GovVaa {
        p,
        key: named("gov-vaa", n),
        inner: inner.map(Box::new),
        ix: i,
        raw_owner: owner,
        is_vaa,
        posted: Default::default(),
        bad,
        executed: Default::default(),
    });
    w.gov_vaas.len() - 1
}

fn put_gov(w: &mut World, c: usize, v: usize) {
    let g = w.gov_vaas[v].clone();
    let s = &mut w.sols[c];
    let mut d = g.p.encode_vaa(s.l.now() as u32);
    if !g.is_vaa {
        d[..3].copy_from_slice(b"msg");
    }
    let lam = s.l.rent.minimum_balance(d.len());
    s.l.put(g.key, lam, d, g.raw_owner);
    w.gov_vaas[v].posted.insert(c);
}

fn admin_act(w: &World, c: usize, signer: Pubkey, x: u64, y: u64) -> Act {
    let chain = chain_choice(w, c, y);
    match x % 8 {
        0 => Act::SetPaused { c, signer, paused: y & 1 == 1 },
        1 => Act::SetOutLimit { c, signer, limit: limit_pick(w, c, y) },
        2 => {
            let ch: Vec<(u16, u8, [u8; 32])> = w
                .all_chains()
                .into_iter()
                .filter(|x| x.0 == chain)
                .collect();
            let (ch, dec, addr) = ch.first().copied().unwrap_or((chain, 8, [9; 32]));
            Act::SetPeer { c, signer, chain: ch, address: addr, limit: limit_pick(w, c, y / 3), decimals: dec }
        }
        3 => Act::SetInLimit { c, signer, chain, limit: limit_pick(w, c, y / 3) },
        4 => Act::TransferOwnership { c, signer, new: owner_key(y % 3), one_step: false, cosign: false },
        5 => Act::TransferOwnership { c, signer, new: owner_key(y % 3), one_step: true, cosign: false },
        6 => Act::Register { c, signer, t: named("prog", y % 20) },
        _ => {
            let address = hashv(&[b"bogus", &(y % 64).to_le_bytes()]).to_bytes();
            Act::SetWhPeer { c, signer, t: manager_id(), chain, address }
        }
    }
}

// ---------------------------------------------------------------------- step

pub fn step(w: &mut World, op: &Op) {
    let p = &op.p;
    let c = (p[0] % w.sols.len() as u64) as usize;
    match op.k {
        K::Transfer => {
            let owner = user(p[1] % 3);
            let chain = chain_choice(w, c, p[2]);
            let amount = amount_choice(w, c, &owner, chain, p[3] % 16, p[3] / 16);
            let a = TransferArgs {
                amount,
                chain,
                recipient: recipient_choice(w, chain, p[4]),
                should_queue: p[5] & 1 == 0,
            };
            let approve = match p[5] / 2 % 24 {
                17 => 2,
                18 => 3,
                19 => 4,
                20 => 5,
                21 => 6,
                22 => 7,
                23 => 1,
                _ => 0,
            };
            let item = if p[6] % 32 == 31 {
                pick(&w.sols[c].outbox, p[6] / 32).unwrap_or(named("item", 0))
            } else {
                w.fresh("item")
            };
            let t = TransferAct {
                c,
                payer: match p[6] / 32 % 8 {
                    0 | 1 => user(p[1] % 3),
                    2 => any_payer(w, c, p[6] / 256),
                    _ => payer(0),
                },
                owner,
                a,
                item,
                approve,
                wrong_mode: p[5] / 48 % 16 == 15,
            };
            submit(w, Act::Transfer(t), op);
        }
        K::Approve => {
            let owner = user(p[1] % 3);
            let chain = chain_choice(w, c, p[2]);
            let amount = amount_choice(w, c, &owner, chain, p[3] % 16, p[3] / 16);
            let a = TransferArgs {
                amount,
                chain,
                recipient: recipient_choice(w, chain, p[4]),
                should_queue: p[5] & 1 == 0,
            };
            submit(w, Act::Approve { c, owner, a }, op);
        }
        K::UseApproval => {
            // Anybody may submit a transfer the owner approved, but only that one.
            if let Some((c, owner, mut a)) = pick(&w.standing, p[0]) {
                match p[1] % 16 {
                    9 => a.amount = a.amount.saturating_sub(1),
                    10 => a.amount = a.amount.saturating_add(1),
                    11 => a.chain = chain_choice(w, c, p[2]),
                    12 => a.recipient = attacker().to_bytes(),
                    13 => a.should_queue = !a.should_queue,
                    14 => {
                        a.recipient = attacker().to_bytes();
                        a.amount /= 2;
                    }
                    15 => a.amount /= 2,
                    _ => {}
                }
                let item = w.fresh("item");
                let t = TransferAct {
                    c,
                    payer: attacker(),
                    owner: if p[1] / 16 % 8 == 7 { user(p[2] % 3) } else { owner },
                    a,
                    item,
                    approve: 1,
                    wrong_mode: false,
                };
                submit(w, Act::Transfer(t), op);
            }
        }
        K::ReleaseOut | K::Mark => {
            let s = &w.sols[c];
            let set = all_transceivers();
            let probes = op.k == K::Mark;
            let t = match (probes, p[1] % 8) {
                (false, 0..=4) => manager_id(),
                (false, 5 | 6) => transceiver_id(),
                (true, 0..=3) => probe_id(),
                (true, 4..=6) => probe2_id(),
                _ => set[p[1] as usize / 8 % 4],
            };
            let fresh: Vec<Pubkey> = s
                .outbox
                .iter()
                .copied()
                .filter(|k| {
                    let id = s.reg(&t).map_or(0, |r| r.id);
                    s.item(k).map_or(false, |i| i.released >> id & 1 == 0)
                })
                .collect();
            let item = if p[2] % 5 == 4 { pick(&s.outbox, p[2] / 5) } else { pick(&fresh, p[2] / 5) };
            let item = match p[2] % 64 {
                62 => pick(&s.inbox, p[3]),
                63 => Some(named("nothing", 0)),
                _ => item,
            };
            if let Some(item) = item {
                let a = if t == probe_id() || t == probe2_id() {
                    Act::ProbeMark { c, t, item }
                } else {
                    Act::ReleaseOut { c, t, item, revert: p[3] & 1 == 1, payer: any_payer(w, c, p[4]) }
                };
                submit(w, a, op);
            }
        }
        K::MarkDirect => {
            if let Some(item) = pick(&w.sols[c].outbox, p[2]) {
                let set = all_transceivers();
                let t = set[(p[1] % 4) as usize];
                let (signer, signed) = match p[3] % 5 {
                    0 => (attacker(), true),
                    1 => (outbox_item_signer(&t), false),
                    2 => (owner_key(0), true),
                    3 => (payer(0), true),
                    _ => (user(0), true),
                };
                submit(w, Act::MarkDirect { c, t, signer, signed, item }, op);
            }
        }
        K::Sign => {
            if !w.unsigned.is_empty() {
                let i = (p[1] % w.unsigned.len() as u64) as usize;
                if i > 0 {
                    w.stats.fault("guardian observation reordered");
                }
                sign(w, i);
            }
        }
        K::PostVaa => {
            let n = w.vaas.len();
            if n > 0 {
                let i = n - 1 - (p[1] % n as u64) as usize;
                let dest = Msg::parse(&w.vaas[i].p.payload).and_then(|m| w.sol_by_chain(m.to_chain));
                let c = if p[2] % 8 < 7 { dest.unwrap_or(c) } else { c };
                if w.sols[c].partitioned {
                    w.stats.fault("delivery blocked by partition");
                } else {
                    if w.sols[c].posted.contains(&i) {
                        w.stats.fault("message duplicated");
                    }
                    post_vaa(w, c, i);
                }
            }
        }
        K::Receive => {
            let s = &w.sols[c];
            let mut cand: Vec<usize> = s.posted.iter().copied().collect();
            if p[1] % 4 != 3 {
                cand.retain(|i| {
                    let v = &w.vaas[*i];
                    Msg::parse(&v.p.payload).map_or(false, |m| {
                        s.l.owner(&transceiver_message(&v.t, v.p.emitter_chain, &m.id)) != v.t
                    })
                });
            }
            if let Some(i) = pick(&cand, p[1] / 4) {
                let mut t = w.vaas[i].t;
                if p[2] % 12 == 11 {
                    t = if t == manager_id() { transceiver_id() } else { manager_id() };
                }
                if t != manager_id() && t != transceiver_id() {
                    t = manager_id();
                }
                let vaa = match p[2] / 12 % 24 {
                    23 => pick(&s.core_msgs, p[3]).unwrap_or(vaa_key(i)),
                    22 => named("nothing", 1),
                    _ => vaa_key(i),
                };
                submit(w, Act::Receive { c, t, vaa, payer: any_payer(w, c, p[4]) }, op);
            }
        }
        K::Attest => {
            let t = if p[1] & 1 == 0 { probe_id() } else { probe2_id() };
            let chain = w.sols[c].chain;
            let cand = carried(w, c, &t);
            let byz = w.byz.contains(&t);
            let pre: Option<(u16, Msg)> = pick(&cand, p[2]).map(|i| (w.sent[i].src_chain, w.sent[i].msg.clone()));
            // Any message ever sent anywhere, to start a forgery from.
            let any: Option<(u16, Msg)> = pick(&w.sent, p[2]).map(|s| (s.src_chain, s.msg.clone()));
            let (from, msg) = match p[3] % 16 {
                // An honest transceiver serving other deployments too.
                10 => match any {
                    Some((f, mut m)) => {
                        m.source_manager = [0x77; 32];
                        m.to_chain = chain;
                        m.recipient_manager = manager_id().to_bytes();
                        (f, m)
                    }
                    None => return,
                },
                11 => match any {
                    Some((f, mut m)) => {
                        m.recipient_manager = [0x78; 32];
                        m.to_chain = chain;
                        (f, m)
                    }
                    None => return,
                },
                // ... or messages addressed elsewhere
                9 => match any {
                    Some((f, m)) if m.to_chain != chain => (f, m),
                    _ => return,
                },
                // ... or coming from a chain we have no peer on
                8 => match any {
                    Some((_, mut m)) => {
                        m.to_chain = chain;
                        m.recipient_manager = manager_id().to_bytes();
                        (7777, m)
                    }
                    None => return,
                },
                k @ 12..=15 if byz => match any {
                    Some((f, mut m)) => {
                        m.to_chain = chain;
                        m.recipient_manager = manager_id().to_bytes();
                        match k {
                            12 => m.amount = m.amount.wrapping_mul(2).wrapping_add(1),
                            13 => m.to = attacker().to_bytes(),
                            14 => {
                                m.id = [p[4] as u8; 32];
                                m.to = attacker().to_bytes();
                            }
                            _ => m.decimals = m.decimals.saturating_sub(1),
                        }
                        w.stats.fault("forged attestation by a corrupt transceiver");
                        (f, m)
                    }
                    None => return,
                },
                _ => match pre {
                    Some(x) => x,
                    None => return,
                },
            };
            let key = attest_key(&t, from, &msg);
            if w.sols[c].l.get(&key).is_none() {
                submit(w, Act::ProbeAttest { c, t, from, msg, key }, op);
            }
        }
        K::Redeem => {
            let s = &w.sols[c];
            let mut cand: Vec<(Pubkey, Pubkey)> = s.tmsgs.clone();
            if p[1] % 4 != 3 {
                cand.retain(|(t, k)| {
                    let id = match s.reg(t) {
                        Some(r) => r.id,
                        None => return false,
                    };
                    s.l.data(k).and_then(Msg::decode_validated).map_or(false, |(f, m)| {
                        s.inbox_item(&inbox_item(f, &m.manager_msg()))
                            .map_or(true, |i| i.votes >> id & 1 == 0)
                    })
                });
            }
            if let Some((mut t, tmsg)) = pick(&cand, p[1] / 4) {
                if p[2] % 16 == 15 {
                    t = all_transceivers()[(p[2] / 16 % 4) as usize];
                }
                submit(w, Act::Redeem { c, t, tmsg, payer: any_payer(w, c, p[4]) }, op);
            }
        }
        K::ReleaseIn => {
            let s = &w.sols[c];
            let mut cand = s.inbox.clone();
            if p[1] % 4 != 3 {
                cand.retain(|k| s.inbox_item(k).map_or(false, |i| i.status != Status::Released));
            }
            let item = if p[1] % 64 == 63 { pick(&s.outbox, p[2]) } else { pick(&cand, p[1] / 4) };
            if let Some(item) = item {
                let acct = match p[2] % 16 {
                    13 => 1,
                    14 => 2,
                    15 => 3,
                    _ => 0,
                };
                let a = Act::ReleaseIn {
                    c,
                    item,
                    acct,
                    revert: p[3] & 1 == 1,
                    wrong_mode: p[3] / 2 % 12 == 11,
                    create: p[3] / 32 % 6 != 5,
                    payer: any_payer(w, c, p[4]),
                };
                // `acct` 2 needs a token account of the right wallet elsewhere
                if acct == 2 {
                    if let Some(i) = w.sols[c].inbox_item(&item) {
                        let s = &mut w.sols[c];
                        let right = s.tok.ata(&i.recipient);
                        if let Some(x) = s.l.get(&right).cloned() {
                            let k = other_account(&right);
                            if s.l.get(&k).is_none() {
                                let mut x = x;
                                use solana_sdk::account::ReadableAccount;
                                let mut d = x.data().to_vec();
                                d[64..72].copy_from_slice(&0u64.to_le_bytes());
                                x.set_data_from_slice(&d);
                                s.l.accounts.insert(k, x);
                            }
                        }
                    }
                }
                submit(w, a, op);
            }
        }
        K::EvmSend => {
            if !w.evms.is_empty() {
                let e = (p[0] % w.evms.len() as u64) as usize;
                let chains: Vec<u16> = w
                    .all_chains()
                    .iter()
                    .map(|x| x.0)
                    .filter(|x| *x != w.evms[e].chain)
                    .collect();
                let to = chains[(p[1] % chains.len() as u64) as usize];
                let circ = w.evms[e].circulating;
                let irl = w
                    .sol_by_chain(to)
                    .and_then(|s| w.sols[s].irl(w.evms[e].chain).map(|r| (r.capacity(w.sols[s].now()), w.sols[s].tok.decimals)));
                let conv = |x: u64, d: u8| -> u128 {
                    let e = w.evms[e].decimals;
                    if e >= d {
                        x as u128 * pow10(e - d)
                    } else {
                        x as u128 / pow10(d - e)
                    }
                };
                let amount = match p[2] % 8 {
                    0..=2 => circ / 1000,
                    3 => circ,
                    4 => p[3] as u128 % circ.max(1),
                    5 => irl.map_or(1, |(x, d)| conv(x, d)),
                    6 => irl.map_or(1, |(x, d)| conv(x.saturating_add(1), d)),
                    _ => (p[3] % 100) as u128,
                };
                let amount = amount.min(circ);
                let r = recipient_choice(w, to, p[4]);
                let fine = p[5] / 4 % 4 == 3;
                evm_send(w, e, to, r, amount, p[5] % 4 == 3, fine);
                if w.evms[e].twin && p[6] % 3 != 0 {
                    // the same message from the other deployment
                    for f in 0..w.evms.len() {
                        if f != e {
                            w.evms[f].seq = w.evms[f].seq.max(w.evms[e].seq.saturating_sub(1));
                            evm_send(w, f, to, r, amount, p[5] % 4 == 3, fine);
                        }
                    }
                }
            }
        }
        K::EvmDeliver => {
            let n = w.vaas.len();
            if n > 0 {
                evm_deliver(w, n - 1 - (p[1] % n as u64) as usize);
            }
        }
        K::Advance => {
            let s = &mut w.sols[c];
            let pending: Option<i64> = s
                .inbox
                .iter()
                .filter_map(|k| match s.inbox_item(k)?.status {
                    Status::After(t) => Some(t),
                    _ => None,
                })
                .chain(s.outbox.iter().filter_map(|k| s.item(k).map(|i| i.release_ts)))
                .filter(|t| *t > s.now())
                .min();
            let to_next = pending.map(|t| t - s.now());
            let back = w.cfg.get(73, 4) == 0;
            let d = match p[1] % 13 {
                0 => 1,
                1 => 60,
                2 => 3600,
                3 => (p[2] % 86400) as i64,
                4 => DAY,
                5 => DAY - 1,
                6 => DAY + 1,
                7 => to_next.unwrap_or(10),
                8 => to_next.map_or(10, |x| x - 1),
                9 => 2 * DAY,
                10 => (p[2] % 600) as i64,
                12 if back => -(1 + (p[2] % [2, 60, 3600, 90_000][(p[3] % 4) as usize]) as i64),
                _ => [30, 30, 30, 7, 91, 400, 3650, 7300][(p[2] % 8) as usize] * DAY,
            };
            s.l.advance(d);
            w.stats.sim_secs += d.max(0) as u64;
            if d < 0 {
                w.stats.fault("clock set back");
            } else if d > DAY {
                w.stats.fault("clock jump beyond a day");
            } else if p[1] % 13 >= 7 && p[1] % 13 <= 8 {
                w.stats.fault("clock moved to a release boundary");
            }
            if let Some(l) = &mut w.stats.log {
                l.push(format!("  ledger {c} clock +{d}s"));
            }
        }
        K::Pause => {
            let signer = signer_of(w, c, p[1]);
            let a = Act::SetPaused { c, signer, paused: p[2] & 1 == 1 };
            admin(w, a, op);
        }
        K::SetPeer => {
            let signer = signer_of(w, c, p[1]);
            let chain = chain_choice(w, c, p[2]);
            let known = w.all_chains().into_iter().find(|x| x.0 == chain);
            // (where nothing is deployed, it can be anything)
            let free = [8u8, 0, 7, 9, 18, 19, 38, 255][(p[3] / 60 % 8) as usize];
            let (dec, addr) = known.map_or((free, [0x55; 32]), |x| (x.1, x.2));
            // (no message may claim to come from such a manager in this run)
            let zero = w.cfg.get(74, 2) == 0;
            let address = match p[3] % 10 {
                9 if zero => [0; 32],
                9 => [0x66; 32],
                _ => addr,
            };
            // Understating the peer's decimals only coarsens amounts; the
            // owner overstating them is a misconfiguration outside the model.
            let decimals = if p[3] / 10 % 6 == 5 { dec.saturating_sub(1) } else { dec };
            let limit = limit_pick(w, c, p[4]);
            let a = Act::SetPeer { c, signer, chain, address, limit, decimals };
            admin(w, a, op);
        }
        K::SetOutLimit => {
            let signer = signer_of(w, c, p[1]);
            let a = Act::SetOutLimit { c, signer, limit: limit_pick(w, c, p[2]) };
            admin(w, a, op);
        }
        K::SetInLimit => {
            let signer = signer_of(w, c, p[1]);
            let chain = chain_choice(w, c, p[2]);
            let a = Act::SetInLimit { c, signer, chain, limit: limit_pick(w, c, p[3]) };
            admin(w, a, op);
        }
        K::Register => {
            let signer = signer_of(w, c, p[1]);
            let t = match p[2] % 8 {
                6 => all_transceivers()[(p[2] / 8 % 4) as usize],
                7 => user(0),
                _ => {
                    let t = named("prog", p[2] / 8 % 6);
                    make_program(w, c, t);
                    t
                }
            };
            w.check_ids = true;
            admin(w, Act::Register { c, signer, t }, op);
        }
        K::RegisterMany => {
            for i in 0..(p[1] % 140) {
                let t = named("prog", 100 + i);
                make_program(w, c, t);
                let signer = w.sols[c].config().map_or(owner_key(0), |c| c.owner);
                if signer == governance_pda() {
                    break;
                }
                w.check_ids = true;
                perform(w, &Act::Register { c, signer, t }, None);
            }
        }
        K::Ownership if p[3] % 16 == 15 => {
            // Outside of the program's control: the holder of the upgrade authority
            // uses the loader directly.
            let cfg = w.sols[c].config();
            let holder = match p[2] % 6 {
                0 => Some(attacker()),
                1 => Some(owner_key(2)),
                2 => Some(upgrade_lock()),
                3 => None,
                4 => Some(user(0)),
                _ => cfg.as_ref().map(|c| c.owner),
            };
            if let Some(cfg) = cfg.filter(|c| c.pending_owner.is_none()) {
                let d = program_data_bytes(holder);
                w.sols[c].edit(&program_data(&manager_id()), |x| *x = d);
                w.sols[c].auth_moved = holder != Some(cfg.owner);
                w.stats.fault("upgrade authority moved with the loader");
                if let Some(h) = holder.filter(|h| *h != upgrade_lock()) {
                    let one_step = p[4] % 2 == 0;
                    perform(w, &Act::TransferOwnership { c, signer: h, new: h, one_step, cosign: false }, None);
                    perform(w, &Act::Claim { c, signer: h }, None);
                }
            }
        }
        K::Ownership => {
            let signer = signer_of(w, c, p[1]);
            let new = match p[2] % 6 {
                5 => governance_pda(),
                4 => user(0),
                k => owner_key(k % 3),
            };
            let a = Act::TransferOwnership { c, signer, new, one_step: p[3] % 3 == 2, cosign: p[3] / 3 % 3 == 2 && new != governance_pda() };
            admin(w, a, op);
        }
        K::Claim => {
            let cfg = w.sols[c].config();
            let signer = match p[1] % 8 {
                0..=3 => cfg.as_ref().and_then(|c| c.pending_owner).unwrap_or(owner_key(0)),
                4 | 5 => cfg.as_ref().map_or(owner_key(0), |c| c.owner),
                6 => attacker(),
                _ => owner_key(p[1] / 8 % 3),
            };
            admin(w, Act::Claim { c, signer }, op);
        }
        K::Reinit => {
            let s = &w.sols[c];
            let deployer = match p[1] % 4 {
                0 => owner_key(0),
                1 => attacker(),
                2 => s.config().map_or(owner_key(0), |c| c.owner),
                _ => owner_key(1),
            };
            let a = Act::Initialize {
                c,
                deployer,
                mint: (p[2] % 3) as u8 | if p[1] % 4 == 1 && p[2] / 8 % 2 == 0 { 16 } else { 0 },
                chain: s.chain ^ (p[2] / 2 % 2) as u16,
                limit: limit_pick(w, c, p[3]),
                burning: s.burning ^ (p[2] / 4 % 2 == 1),
            };
            submit(w, a, op);
        }
        K::Lut => {
            let cur = w.sols[c].l.clock.slot;
            let slot = match p[1] % 6 {
                0 | 1 => cur - 1,
                2 => cur - 5,
                3 => pick(&w.sols[c].luts, p[2]).map_or(cur - 1, |x| x.0),
                4 => cur,
                _ => cur.saturating_sub(70),
            };
            let pay = [payer(0), attacker(), payer(1)][(p[3] % 3) as usize];
            submit(w, Act::InitLut { c, payer: pay, slot }, op);
        }
        K::SetWhPeer => {
            let signer = signer_of(w, c, p[1]);
            let chain = chain_choice(w, c, p[2]);
            let t = if p[3] & 1 == 0 { manager_id() } else { transceiver_id() };
            let address = if p[4] % 4 == 3 { hashv(&[b"bogus", &(p[4] % 64).to_le_bytes()]).to_bytes() } else { w.emitter_on(chain, &t).unwrap_or([0x33; 32]) };
            admin(w, Act::SetWhPeer { c, signer, t, chain, address }, op);
        }
        K::Broadcast => {
            let t = if p[1] & 1 == 0 { manager_id() } else { transceiver_id() };
            let message = w.fresh("broadcast");
            let pay = any_payer(w, c, p[2]);
            let a = if p[3] & 1 == 0 {
                Act::BroadcastId { c, t, payer: pay, message }
            } else {
                Act::BroadcastPeer { c, t, payer: pay, chain: chain_choice(w, c, p[4]), message }
            };
            submit(w, a, op);
        }
        K::QAdmin => {
            let signer = match p[1] % 14 {
                0..=4 => qowner(),
                5..=7 => qassistant(0),
                8 => attacker(),
                9 => qassistant(1),
                10 => owner_key(0),
                11 => qfee(p[3] % 2),
                12 => user(0),
                _ => w.sols[c]
                    .l
                    .data(&q_instance())
                    .and_then(QInstance::decode)
                    .map(|i| i.assistant)
                    .filter(|k| *k != Pubkey::default())
                    .unwrap_or(qowner()),
            };
            let chain = chain_choice(w, c, p[3]);
            const V: [u64; 8] = [1_000_000, 0, 1, u64::MAX, 3_000_000_000, 12345, 1 << 40, u64::MAX - 1];
            let x = V[(p[4] % 8) as usize];
            let y = V[(p[5] % 8) as usize];
            let a = match p[2] % 9 {
                0 => Act::QSolPrice { c, signer, price: x },
                1 => Act::QChainPrices { c, signer, chain, native: x, gas: y },
                2 => Act::QChainParams { c, signer, chain, max: x, base: y },
                3 => Act::QRegChain { c, signer, chain: if p[4] & 1 == 0 { chain } else { (p[5] % 9) as u16 } },
                4 => Act::QAssistant {
                    c,
                    signer,
                    to: [Some(qassistant(0)), Some(qassistant(1)), None, Some(qfee(0)), Some(qowner())][[0, 0, 1, 1, 2, 2, 3, 4][(p[4] % 8) as usize]],
                },
                5 => Act::QFeeRecipient {
                    c,
                    signer,
                    to: [qfee(0), qfee(1), Pubkey::default(), user(0), qassistant(0), qowner()][[0, 0, 1, 1, 2, 3, 4, 5][(p[4] % 8) as usize]],
                },
                6 => Act::QRegNtt {
                    c,
                    signer,
                    program: if p[4] & 1 == 0 { manager_id() } else { transceiver_id() },
                    index: if p[5] % 4 == 3 {
                        (p[5] / 4 % 4) as u8
                    } else {
                        w.sols[c].reg(&manager_id()).map_or(0, |r| r.id)
                    },
                    gas: [250_000u32, 0, u32::MAX, 1][(p[5] / 16 % 4) as usize],
                },
                7 => Act::QDeregNtt {
                    c,
                    signer,
                    program: if p[4] & 1 == 0 { manager_id() } else { transceiver_id() },
                },
                _ => Act::QInit {
                    c,
                    owner: signer,
                    fee_recipient: [qfee(0), Pubkey::default()][(p[4] % 2) as usize],
                    foreign: signer == attacker() && p[5] % 2 == 0,
                },
            };
            submit(w, a, op);
        }
        K::QRequest => {
            // something to relay
            if p[1] % 4 == 0 {
                let mut q = [0; NP];
                q[0] = p[0];
                step(w, &Op { k: K::Transfer, p: q });
                for a in next_steps(w, c) {
                    if matches!(a, Act::ReleaseOut { .. }) {
                        perform(w, &a, None);
                    }
                }
            }
            let s = &w.sols[c];
            let mut cand = s.outbox.clone();
            if p[1] % 4 != 3 {
                cand.retain(|k| !s.relay_items.contains(k) && s.item(k).map_or(false, |i| i.released != 0));
            }
            if let Some(item) = pick(&cand, p[1] / 4) {
                let chain = if p[2] % 8 == 7 {
                    chain_choice(w, c, p[2] / 8)
                } else {
                    s.item(&item).map_or(2, |i| i.chain)
                };
                if p[6] % 4 != 3 {
                    quoter_ready(w, c, chain);
                } else if p[6] / 4 % 2 == 0 {
                    quoter_extreme(w, c, chain, p[6] / 8);
                }
                let s = &w.sols[c];
                let ch = s.l.data(&q_chain(chain)).and_then(QChain::decode);
                let inst = s.l.data(&q_instance()).and_then(QInstance::decode);
                let ntt = s.l.data(&q_ntt(&manager_id())).and_then(QNtt::decode);
                let max = ch.as_ref().map_or(0, |c| c.max_dropoff);
                let dropoff = match p[3] % 6 {
                    0 => 0,
                    1 => max,
                    2 => max.saturating_add(1),
                    3 => p[3] / 6 % max.max(1),
                    4 => max / 2,
                    _ => p[3] / 6 % 1_000_000,
                };
                let fee = match (&inst, &ch, &ntt) {
                    (Some(i), Some(c), Some(n)) => relay_fee(i, c, n, dropoff).unwrap_or(u64::MAX),
                    _ => 0,
                }
                .max(s.l.rent.minimum_balance(16));
                let max_fee = match p[4] % 6 {
                    0 | 1 => u64::MAX,
                    2 => fee,
                    3 => fee.saturating_sub(1),
                    4 => fee.saturating_add(1),
                    _ => 0,
                };
                submit(
                    w,
                    Act::QRequest { c, payer: user(p[5] % 3), chain, item, dropoff, max_fee },
                    op,
                );
            }
        }
        K::QClose => {
            let s = &w.sols[c];
            let open: Vec<Pubkey> = s
                .relay_items
                .iter()
                .copied()
                .filter(|k| s.l.owner(&q_request(k)) == quoter_id())
                .collect();
            let item = match p[1] % 8 {
                7 => pick(&s.outbox, p[1] / 8),
                6 => pick(&s.relay_items, p[1] / 8),
                _ => pick(&open, p[1] / 8),
            };
            if let Some(item) = item {
                let inst = s.l.data(&q_instance()).and_then(QInstance::decode);
                let signer = [qowner(), qassistant(0), attacker(), user(0), qfee(0)][[0, 0, 0, 1, 1, 2, 3, 4][(p[2] % 8) as usize]];
                let to = match p[3] % 7 {
                    6 => signer,
                    4 => attacker(),
                    5 => qfee(1),
                    _ => inst.map_or(qfee(0), |i| i.fee_recipient),
                };
                submit(w, Act::QClose { c, signer, to, item }, op);
            }
        }
        K::GovMake => {
            let g = governance_pda();
            let inner = admin_act(w, c, g, p[1], p[2]);
            if let Act::Register { t, .. } = &inner {
                make_program(w, c, *t);
            }
            let variant = if p[3] % 2 == 0 { 0 } else { p[3] / 2 % 13 };
            let (inner, i) = if p[5] % 3 == 0 {
                (None, gov_any_call(w, c, p[6]))
            } else {
                let i = gov_call(w, &inner, p[4] % 4 == 3);
                (Some(inner), i)
            };
            let v = make_gov(w, inner, i, variant, p[4] / 4);
            put_gov(w, c, v);
            if variant != 0 {
                w.stats.fault("forged governance message");
            }
        }
        K::GovRun => {
            let cand: Vec<usize> = (0..w.gov_vaas.len())
                .filter(|i| w.gov_vaas[*i].posted.contains(&c))
                .collect();
            if let Some(v) = pick(&cand, p[1]) {
                let a = Act::Gov { c, vaa: v, payer: any_payer(w, c, p[2]), alt_replay: p[3] % 10 == 9, cosign: p[4] % 3 != 0 };
                submit(w, a, op);
            }
        }
        K::ForgeVaa => forge(w, c, p),
        K::Prefund => {
            // Anyone can send lamports to any address before it is used.
            let s = &w.sols[c];
            let k = match p[1] % 12 {
                0 => pick(&w.sent, p[2]).map(|x| inbox_item(x.src_chain, &x.msg.manager_msg())),
                1 => pick(&w.sent, p[2]).map(|x| transceiver_message(&manager_id(), x.src_chain, &x.msg.id)),
                2 => pick(&s.outbox, p[2]).map(|k| q_request(&k)),
                3 => Some(replay_pda(1, &governance_emitter(), w.gov_vaas.len() as u64 + p[2] % 2)),
                4 => Some(registered_transceiver(&named("prog", p[2] % 6))),
                5 => pick(&w.sent, p[2]).map(|x| transceiver_message(&transceiver_id(), x.src_chain, &x.msg.id)),
                6 | 7 => pick(&s.outbox, p[2]).map(|k| wh_message(&manager_id(), &k)),
                8 => pick(&s.outbox, p[2]).map(|k| wh_message(&transceiver_id(), &k)),
                9 => {
                    // where something is about to be created
                    let ch = *[2u16, 5, 10002, 30, 258, 65535, 77].get((p[2] % 7) as usize).unwrap();
                    Some(match p[4] % 5 {
                        0 => peer(ch),
                        1 => inbox_rl(ch),
                        2 => transceiver_peer(&manager_id(), ch),
                        3 => transceiver_peer(&transceiver_id(), ch),
                        _ => q_chain(ch),
                    })
                }
                10 => Some(match p[4] % 3 {
                    0 => lut_pda(),
                    1 => lut_address(s.l.clock.slot.saturating_sub(p[2] % 3)),
                    _ => q_ntt(&named("prog", p[2] % 6)),
                }),
                _ => Some(match p[4] % 4 {
                    0 => config(),
                    1 => outbox_rl(),
                    2 => q_instance(),
                    _ => sequence(&emitter(&[manager_id(), transceiver_id()][(p[2] % 2) as usize])),
                }),
            };
            if let Some(k) = k {
                let amt = [890_880u64, 1_000_000, 50_000_000][(p[3] % 3) as usize];
                let l = &mut w.sols[c].l;
                if l.owner(&k) == system_program::id() {
                    l.airdrop(&k, amt);
                    if let Some(log) = &mut w.stats.log {
                        log.push(format!("  ledger {c}: a stranger pre-funds {k} (kind {})", p[1] % 12));
                    }
                    w.stats.fault("account pre-funded by a stranger");
                }
            }
        }
        K::BridgeFee => {
            let fee = [0u64, 100, 5_000_000, 7][(p[1] % 4) as usize];
            w.sols[c].edit(&bridge(), |d| d[16..24].copy_from_slice(&fee.to_le_bytes()));
            w.stats.fault("core bridge fee changed");
        }
        K::Toggle => {
            if let Some(cfg) = w.sols[c].config() {
                let t = all_transceivers()[(p[1] % 4) as usize];
                if p[2] % 4 == 3 {
                    // all of them
                    set_enabled(w, c, 0);
                    w.stats.fault("all transceivers disabled");
                    if let Some(l) = &mut w.stats.log {
                        l.push(format!("  ledger {c} disables all transceivers"));
                    }
                } else if let Some(r) = w.sols[c].reg(&t) {
                    set_enabled(w, c, cfg.enabled ^ (1 << r.id));
                    w.stats.fault("transceiver disabled or re-enabled");
                    if let Some(l) = &mut w.stats.log {
                        l.push(format!("  ledger {c} toggles transceiver {}", r.id));
                    }
                }
            }
        }
        // The hook program starts or stops refusing.
        K::Hook => {
            if w.sols[c].tok.hook {
                let broken = !w.sols[c].hook_refuses() && p[1] % 4 != 3;
                w.sols[c].break_hook(broken);
                w.stats.fault("transfer hook refuses or recovers");
                if let Some(l) = &mut w.stats.log {
                    l.push(format!("  ledger {c} transfer hook {}", if broken { "refuses" } else { "works" }));
                }
            }
        }
        K::Threshold => {
            let n = transceiver_set(&w.cfg).len() as u64;
            let lo = w.byz.len() as u64 + 1;
            if lo <= n {
                let t = lo + p[1] % (n - lo + 1);
                set_threshold(w, c, t as u8);
                if let Some(l) = &mut w.stats.log {
                    l.push(format!("  ledger {c} threshold {t}"));
                }
            }
        }
        K::Donate => {
            let from = user(p[1] % 3);
            let bal = w.sols[c].balance(&w.sols[c].tok.ata(&from));
            submit(
                w,
                Act::TokTransfer { c, from, to: token_authority(), amount: bal / (10 + p[2] % 100) },
                op,
            );
        }
        K::Pay => {
            let from = user(p[1] % 3);
            let bal = w.sols[c].balance(&w.sols[c].tok.ata(&from));
            let to = user(p[3] % 3);
            if to != from {
                submit(w, Act::TokTransfer { c, from, to, amount: bal / (2 + p[2] % 100) }, op);
            }
        }
        K::Scan => {
            if !w.sols[c].partitioned {
                let r = (p[1] % 2) as usize;
                let v = next_steps(w, c);
                w.relayers[r].extend(v);
                w.relayers[r].truncate(60);
            }
        }
        K::RelayStep => {
            let r = (p[1] % 2) as usize;
            for _ in 0..(1 + p[2] % 8) {
                if w.relayers[r].is_empty() {
                    break;
                }
                let i = if p[3] % 3 == 2 { (p[3] / 3 % w.relayers[r].len() as u64) as usize } else { 0 };
                let a = w.relayers[r].remove(i);
                if w.sols[a.ledger()].partitioned {
                    w.stats.fault("delivery blocked by partition");
                    continue;
                }
                submit(w, a, op);
            }
        }
        K::Crash => {
            let r = (p[1] % 2) as usize;
            if !w.relayers[r].is_empty() {
                w.stats.fault("relayer crash (memory lost)");
            }
            w.relayers[r].clear();
        }
        K::Partition => {
            let s = &mut w.sols[c];
            s.partitioned = !s.partitioned;
            if s.partitioned {
                w.stats.fault("partition");
            }
        }
        K::Flush => {
            if !w.mempool.is_empty() {
                let i = (p[1] % w.mempool.len() as u64) as usize;
                let a = if p[2] % 4 == 3 {
                    w.stats.fault("transaction duplicated");
                    w.mempool[i].clone()
                } else {
                    if i > 0 {
                        w.stats.fault("transaction reordered");
                    }
                    w.mempool.remove(i)
                };
                perform(w, &a, None);
            }
        }
        K::DropTx => {
            if w.mempool.pop().is_some() {
                w.stats.fault("transaction dropped");
            }
        }
        // Move everything one hop further, as an attentive relayer would.
        K::Carry => {
            let noise = if p[2] % 3 == 0 { 0 } else { p[3] | 1 };
            carry_round(w, Some(c), 1 + p[1] % 3, noise);
        }
    }
}

fn make_program(w: &mut World, c: usize, k: Pubkey) {
    let l = &mut w.sols[c].l;
    if l.get(&k).is_none() {
        l.put(k, 1_141_440, vec![0; 36], solana_sdk::bpf_loader_upgradeable::id());
        if let Some(a) = l.accounts.get_mut(&k) {
            a.set_executable(true);
        }
    }
}

/// Messages nobody is entitled to have executed.
fn forge(w: &mut World, c: usize, p: &[u64; NP]) {
    let chain = w.sols[c].chain;
    let other = chain_choice(w, c, p[2]);
    let t = if p[3] & 1 == 0 { manager_id() } else { transceiver_id() };
    let base = pick(&w.sent, p[4]).map(|s| (s.src_chain, s.msg.clone()));
    let mut m = base.as_ref().map(|x| x.1.clone()).unwrap_or(Msg {
        source_manager: manager_id().to_bytes(),
        recipient_manager: manager_id().to_bytes(),
        id: [p[4] as u8; 32],
        sender: [1; 32],
        decimals: 6,
        amount: 1000,
        source_token: [2; 32],
        to: attacker().to_bytes(),
        to_chain: chain,
    });
    let src = base.map_or(other, |x| x.0);
    m.to_chain = chain;
    m.recipient_manager = manager_id().to_bytes();
    let em = w.emitter_on(src, &t).unwrap_or([3; 32]);
    let mut honest = true; // signed by the guardians
    let (mut ech, mut emitter_addr, mut owner, mut vaa) = (src, em, core_bridge_id(), true);
    let mut genuine = false; // what the peer itself published, but not for us
    let mut raw = None;
    match p[1] % 13 {
        // Anyone can have the guardians sign a message from their own contract.
        0 => {
            emitter_addr = [0x99; 32];
            m.to = attacker().to_bytes();
        }
        // The right address on the wrong chain
        1 => {
            ech = match p[5] % 3 {
                0 => 4242,
                1 => src ^ 1 << (p[5] / 3 % 16),
                _ => src.swap_bytes(),
            };
            if w.all_chains().iter().any(|x| x.0 == ech) {
                ech = 4242;
            }
        }
        2 => {
            // right address, but another registered chain
            ech = w
                .all_chains()
                .iter()
                .map(|x| x.0)
                .find(|x| *x != src && *x != chain)
                .unwrap_or(4242);
            if w.emitter_on(ech, &t) == Some(emitter_addr) {
                emitter_addr = [0x98; 32];
            }
        }
        // Never signed: an account with the right bytes under the wrong program
        3 => {
            owner = probe2_id();
            honest = false;
        }
        // Never signed: the core bridge's own unsigned message account
        4 => {
            vaa = false;
            honest = false;
        }
        // The other transceiver's emitter
        5 => {
            let u = if t == manager_id() { transceiver_id() } else { manager_id() };
            emitter_addr = w.emitter_on(src, &u).unwrap_or([4; 32]);
            if transceiver_set(&w.cfg).len() < 2 {
                emitter_addr = [0x97; 32];
            }
        }
        6 => {
            emitter_addr = manager_id().to_bytes();
        }
        // A misconfigured peer deployment publishes these.
        8 => {
            genuine = true;
            if p[5] / 256 % 4 == 3 {
                m.recipient_manager = [0; 32];
            } else {
                m.recipient_manager[(p[5] % 32) as usize] ^= 1 << (p[5] / 32 % 8);
            }
            m.id[31] ^= 0x5a;
        }
        9 => {
            genuine = true;
            if p[5] / 256 % 4 == 3 && w.cfg.get(74, 2) == 1 {
                m.source_manager = [0; 32];
            } else {
                m.source_manager[(p[5] % 32) as usize] ^= 1 << (p[5] / 32 % 8);
            }
            m.id[31] ^= 0x5b;
        }
        10 => {
            genuine = true;
            m.to_chain = match p[5] / 16 % 4 {
                3 => 0,
                2 => m.to_chain.swap_bytes(),
                _ => m.to_chain ^ 1 << (p[5] % 16),
            };
            if w.sols.iter().any(|x| x.chain == m.to_chain) {
                m.to_chain = 4242;
            }
            m.id[31] ^= 0x5c;
        }
        // an amount no one can express here
        12 => {
            genuine = true;
            let d = w.sols[c].tok.decimals as u64;
            m.decimals = (d + 20 + p[5] % (236 - d)) as u8;
            m.amount = [1, 1000, u64::MAX, 1 << 32][(p[5] / 256 % 4) as usize];
            m.id[31] ^= 0x5d;
        }
        // and this is not a transfer at all
        11 => {
            genuine = true;
            let mut d = m.wire();
            match p[5] % 5 {
                0 => d.truncate((p[5] / 5) as usize % d.len()),
                // it claims more transceiver payload than there is
                4 => {
                    let n = d.len();
                    let (len, have) = [(1u16, 0usize), (256, 0), (3, 2), (300, 299), (u16::MAX, 7)][(p[5] / 5 % 5) as usize];
                    d[n - 2..].copy_from_slice(&len.to_be_bytes());
                    d.extend(vec![7u8; have]);
                }
                1 => d[(p[5] / 4 % 4) as usize] ^= 1 << (p[5] / 16 % 8),
                2 => d[4 + 64 + 2 + 66 + (p[5] / 4 % 4) as usize] ^= 1 << (p[5] / 16 % 8),
                _ => {
                    let n = d.len() - 1 - (p[5] / 4 % 40) as usize;
                    d.truncate(n);
                }
            }
            raw = Some(d);
        }
        _ => {
            // one bit off
            emitter_addr[(p[5] % 32) as usize] ^= 1 << (p[5] / 32 % 8);
        }
    }
    // The guardians sign what a genuine emitter publishes and nothing else: never let a forgery
    // come out as "signed, from a deployed transceiver, with content nobody sent".
    if honest
        && !genuine
        && [manager_id(), transceiver_id()].iter().any(|u| w.emitter_on(ech, u) == Some(emitter_addr))
        && !w.sent.iter().any(|s| s.src_chain == ech && s.msg == m)
    {
        emitter_addr = [0x97; 32];
    }
    w.stats.fault("forged message");
    let posted = Posted {
        finality: 32,
        sequence: 1_000_000 + w.vaas.len() as u64,
        emitter_chain: ech,
        emitter: emitter_addr,
        payload: raw.unwrap_or_else(|| m.wire()),
    };
    w.vaas.push(Vaa { p: posted, t, honest: false });
    let i = w.vaas.len() - 1;
    let s = &mut w.sols[c];
    s.posted.insert(i);
    let mut d = w.vaas[i].p.encode_vaa(s.l.now() as u32);
    if !vaa {
        d[..3].copy_from_slice(b"msg");
    }
    let lam = s.l.rent.minimum_balance(d.len());
    s.l.put(vaa_key(i), lam, d, owner);
    let a = Act::Receive { c, t, vaa: vaa_key(i), payer: attacker() };
    perform(w, &a, None);
    if genuine {
        let tmsg = transceiver_message(&t, ech, &m.id);
        if w.sols[c].l.owner(&tmsg) == t {
            perform(w, &Act::Redeem { c, t, tmsg, payer: attacker() }, None);
        }
    }
}

/// Sign, post and relay everything that can be, `rounds` hops deep.
/// Diligent relaying. With `noise`, hostile or dying variants of the same
/// transactions are submitted in between.
pub fn carry_round(w: &mut World, only: Option<usize>, rounds: u64, mut noise: u64) {
    for _ in 0..rounds {
        while !w.unsigned.is_empty() {
            sign(w, 0);
        }
        for i in 0..w.vaas.len() {
            if !w.vaas[i].honest {
                continue;
            }
            if let Some(m) = Msg::parse(&w.vaas[i].p.payload) {
                if let Some(d) = w.sol_by_chain(m.to_chain) {
                    if !w.sols[d].partitioned {
                        post_vaa(w, d, i);
                    }
                } else {
                    evm_deliver(w, i);
                }
            }
        }
        let n = w.sols.len();
        for c in 0..n {
            if only.map_or(false, |o| o != c) || w.sols[c].partitioned {
                continue;
            }
            for a in next_steps(w, c) {
                // Somebody else may have done it by now.
                let moot = match &a {
                    Act::Redeem { c, t, tmsg, .. } => {
                        let s = &w.sols[*c];
                        s.l.data(tmsg).and_then(Msg::decode_validated).map_or(true, |(f, m)| {
                            let _ = t;
                            s.inbox_item(&inbox_item(f, &m.manager_msg()))
                                .map_or(false, |i| i.status != Status::NotApproved)
                        })
                    }
                    _ => false,
                };
                if moot {
                    continue;
                }
                if noise != 0 {
                    noise = noise.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    disturb(w, &a, noise >> 33);
                }
                perform(w, &a, None);
            }
            if w.violations.len() > crate::run::ENOUGH {
                return;
            }
        }
        // Harness transceivers deliver to the reference chains directly.
        for i in 0..w.sent.len() {
            let s = w.sent[i].clone();
            if let (Some(e), Some(o)) = (w.evm_by_chain(s.msg.to_chain), w.sol_by_chain(s.src_chain)) {
                let o = &w.sols[o];
                let key = Pubkey::new_from_array(s.msg.id);
                let by_probe = [probe_id(), probe2_id()].iter().any(|t| {
                    !w.byz.contains(t)
                        && match (o.item(&key), o.reg(t)) {
                            (Some(it), Some(r)) => it.released >> r.id & 1 == 1,
                            _ => false,
                        }
                });
                if by_probe && s.msg.recipient_manager == w.evms[e].manager {
                    evm_credit(w, e, s.src_chain, &s.msg);
                }
            }
        }
    }
}

fn disturb(w: &mut World, a: &Act, x: u64) {
    match x % 8 {
        0 | 1 => {
            let p = a.plan(w);
            if p.tx.ixs.is_empty() || !p.reasons.is_empty() {
                return;
            }
            let focus = if x / 8 % 4 == 0 { None } else { w.focus };
            let v = sub_choices(w, &p, focus);
            drop(p);
            if let Some((slot, kind)) = pick(&v, x / 32) {
                perform(w, &Act::Sub { inner: Box::new(a.clone()), slot, kind }, None);
            }
        }
        2 => {
            perform(w, a, Some(x / 8 % 5));
        }
        _ => {}
    }
}

/// Why a transfer is allowed to stay undelivered after the faults stop.
fn excused(w: &World, s: &Sent) -> Option<&'static str> {
    // Can any transceiver on the sending side carry it?
    let set = transceiver_set(&w.cfg);
    let src = w.sol_by_chain(s.src_chain);
    let key = Pubkey::new_from_array(s.msg.id);
    let carries = |t: &Pubkey| match src {
        None => true,
        Some(o) => {
            let o = &w.sols[o];
            let sent = match (o.item(&key), o.reg(t)) {
                (Some(it), Some(r)) => it.released >> r.id & 1 == 1,
                _ => false,
            };
            sent || o.enabled(t)
        }
    };
    if let Some(e) = w.evm_by_chain(s.msg.to_chain) {
        if s.msg.recipient_manager != w.evms[e].manager {
            return Some("peer misconfigured");
        }
        if !set.iter().any(|t| carries(t) && !w.byz.contains(t)) {
            return Some("no transceiver");
        }
        return None;
    }
    let d = match w.sol_by_chain(s.msg.to_chain) {
        Some(d) => &w.sols[d],
        None => return Some("unknown chain"),
    };
    if s.msg.recipient_manager != manager_id().to_bytes() {
        return Some("peer misconfigured");
    }
    match d.peer(s.src_chain) {
        Some(p) if p.address == s.msg.source_manager => {}
        _ => return Some("peer misconfigured"),
    }
    let amount = match untrim(s.msg.amount, s.msg.decimals, d.tok.decimals) {
        Some(a) => a,
        None => return Some("overflow"),
    };
    if d.burning && d.supply().checked_add(amount).is_none() {
        return Some("supply overflow");
    }
    if !d.burning && d.custody_balance() < amount {
        return Some("custody too low");
    }
    let cfg = d.config()?;
    let k = inbox_item(s.src_chain, &s.msg.manager_msg());
    let mut votes = d.inbox_item(&k).map_or(0, |i| i.votes);
    if let Some(i) = d.inbox_item(&k) {
        if i.status != Status::NotApproved {
            return None;
        }
    }
    for t in &set {
        if !carries(t) || w.byz.contains(t) {
            continue;
        }
        let wormhole = *t == manager_id() || *t == transceiver_id();
        if wormhole && d.tpeer(t, s.src_chain) != w.emitter_on(s.src_chain, t) {
            continue;
        }
        if let Some(r) = d.reg(t) {
            votes |= 1 << r.id;
        }
    }
    if (votes & cfg.enabled).count_ones() < cfg.threshold as u32 || cfg.threshold == 0 {
        return Some("quorum unreachable");
    }
    None
}

/// Faults stop: after two days of simulated time on every chain and diligent
/// relaying, everything sent must have arrived.
pub fn heal(w: &mut World) {
    w.healing = true;
    w.faults_on = false;
    w.mempool.clear();
    for r in w.relayers.iter_mut() {
        r.clear();
    }
    let none = Op { k: K::Pause, p: [0; NP] };
    if let Some(l) = &mut w.stats.log {
        l.push("  -- faults stop --".into());
    }
    for c in 0..w.sols.len() {
        w.sols[c].partitioned = false;
        w.sols[c].l.catch_up();
        w.sols[c].break_hook(false);
        let cfg = match w.sols[c].config() {
            Some(c) => c,
            None => continue,
        };
        let mut bits = 0u128;
        for t in transceiver_set(&w.cfg) {
            if let Some(r) = w.sols[c].reg(&t) {
                bits |= 1 << r.id;
            }
        }
        set_enabled(w, c, cfg.enabled | bits);
        if cfg.paused {
            let a = Act::SetPaused { c, signer: cfg.owner, paused: false };
            admin(w, a, &none);
        }
    }
    for round in 0..3 {
        carry_round(w, None, 3, 0);
        if w.violations.len() > crate::run::ENOUGH {
            return;
        }
        if round < 2 {
            for s in w.sols.iter_mut() {
                s.l.advance(DAY);
                w.stats.sim_secs += DAY as u64;
            }
        }
    }
    for i in 0..w.sent.len() {
        let s = w.sent[i].clone();
        *w.stats.hits.entry("C24").or_default() += 1;
        if w.is_delivered(&s) {
            continue;
        }
        match excused(w, &s) {
            Some(why) => {
                w.stats.exempt += 1;
                *w.stats.rejected.entry(format!("undelivered: {why}")).or_default() += 1;
            }
            None => {
                w.violate(
                    &["C24"],
                    format!(
                        "transfer from chain {} to {} not delivered two days after faults stopped",
                        s.src_chain, s.msg.to_chain
                    ),
                );
            }
        }
    }
}
