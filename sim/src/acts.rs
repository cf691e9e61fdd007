//! Everything a participant can do, and for each: the transaction, and what
//! the reference model says about it (must it be rejected, and why; if not,
//! which state must result). The reference reads the ledger as it was just
//! before the transaction and nothing else.

use solana_sdk::{
    account::{AccountSharedData, ReadableAccount},
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};

use crate::{ix, ix::*, svm::*, world::*};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TransferAct {
    pub c: usize,
    pub payer: Pubkey,
    pub owner: Pubkey,
    pub a: TransferArgs,
    pub item: Pubkey,
    /// 0 exact approval in the same transaction; 1 no approval (rely on a
    /// standing one); 2 approval of too little; 3.. approval bound to other
    /// arguments (3 amount, 4 chain, 5 recipient, 6 queueing); 7 the approval
    /// is signed by somebody else
    pub approve: u8,
    pub wrong_mode: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Transfer(TransferAct),
    Approve { c: usize, owner: Pubkey, a: TransferArgs },
    ReleaseOut { c: usize, t: Pubkey, item: Pubkey, revert: bool, payer: Pubkey },
    ProbeMark { c: usize, t: Pubkey, item: Pubkey },
    MarkDirect { c: usize, t: Pubkey, signer: Pubkey, signed: bool, item: Pubkey },
    Receive { c: usize, t: Pubkey, vaa: Pubkey, payer: Pubkey },
    ProbeAttest { c: usize, t: Pubkey, from: u16, msg: Msg, key: Pubkey },
    Redeem { c: usize, t: Pubkey, tmsg: Pubkey, payer: Pubkey },
    ReleaseIn {
        c: usize,
        item: Pubkey,
        /// 0 the recipient's associated account, 1 the attacker's, 2 another
        /// token account of the recipient's, 3 the custody account
        acct: u8,
        revert: bool,
        wrong_mode: bool,
        create: bool,
        payer: Pubkey,
    },
    SetPeer { c: usize, signer: Pubkey, chain: u16, address: [u8; 32], limit: u64, decimals: u8 },
    Register { c: usize, signer: Pubkey, t: Pubkey },
    SetOutLimit { c: usize, signer: Pubkey, limit: u64 },
    SetInLimit { c: usize, signer: Pubkey, chain: u16, limit: u64 },
    SetPaused { c: usize, signer: Pubkey, paused: bool },
    /// `cosign`: the nominee's signature happens to be on the transaction too
    TransferOwnership { c: usize, signer: Pubkey, new: Pubkey, one_step: bool, cosign: bool },
    Claim { c: usize, signer: Pubkey },
    Initialize { c: usize, deployer: Pubkey, mint: u8, chain: u16, limit: u64, burning: bool },
    InitLut { c: usize, payer: Pubkey, slot: u64 },
    SetWhPeer { c: usize, signer: Pubkey, t: Pubkey, chain: u16, address: [u8; 32] },
    BroadcastId { c: usize, t: Pubkey, payer: Pubkey, message: Pubkey },
    BroadcastPeer { c: usize, t: Pubkey, payer: Pubkey, chain: u16, message: Pubkey },
    // quoter
    QInit { c: usize, owner: Pubkey, fee_recipient: Pubkey, foreign: bool },
    QFeeRecipient { c: usize, signer: Pubkey, to: Pubkey },
    QAssistant { c: usize, signer: Pubkey, to: Option<Pubkey> },
    QRegChain { c: usize, signer: Pubkey, chain: u16 },
    QRegNtt { c: usize, signer: Pubkey, program: Pubkey, index: u8, gas: u32 },
    QDeregNtt { c: usize, signer: Pubkey, program: Pubkey },
    QSolPrice { c: usize, signer: Pubkey, price: u64 },
    QChainPrices { c: usize, signer: Pubkey, chain: u16, native: u64, gas: u64 },
    QChainParams { c: usize, signer: Pubkey, chain: u16, max: u64, base: u64 },
    QRequest { c: usize, payer: Pubkey, chain: u16, item: Pubkey, dropoff: u64, max_fee: u64 },
    QClose { c: usize, signer: Pubkey, to: Pubkey, item: Pubkey },
    Gov { c: usize, vaa: usize, payer: Pubkey, alt_replay: bool, cosign: bool },
    // plain token moves
    TokTransfer { c: usize, from: Pubkey, to: Pubkey, amount: u64 },
    /// A transaction with one account replaced, or one signature missing.
    Sub { inner: Box<Act>, slot: usize, kind: u8 },
}

pub struct Reason {
    pub why: String,
    pub tags: &'static [P],
}

pub struct Check {
    pub key: Pubkey,
    pub tags: Vec<P>,
    pub what: &'static str,
    pub f: Box<dyn Fn(Option<&AccountSharedData>) -> Result<(), String>>,
}

pub struct Plan {
    pub name: &'static str,
    pub c: usize,
    pub tx: Tx,
    /// index of the instruction under test
    pub main: usize,
    pub reasons: Vec<Reason>,
    pub checks: Vec<Check>,
    /// accounts that may change in ways the plan does not constrain
    pub touch: Vec<Pubkey>,
    /// properties violated if it fails without a reason
    pub fail_tags: Vec<P>,
    /// properties evaluated by virtue of the accept/reject decision alone
    pub decide_tags: Vec<P>,
    pub noop: bool,
    /// the clock stands before a limiter's last movement: refusing is fine,
    /// accepting is judged as if no time had passed
    pub may_refuse: bool,
    pub cpi_check: Option<(Vec<P>, Instruction)>,
}

impl Plan {
    fn new(name: &'static str, c: usize, ixs: Vec<Instruction>, signers: &[Pubkey]) -> Plan {
        Plan {
            name,
            c,
            main: ixs.len() - 1,
            tx: Tx::new(ixs, signers),
            reasons: vec![],
            checks: vec![],
            touch: vec![],
            fail_tags: vec!["C24"],
            decide_tags: vec![],
            noop: false,
            may_refuse: false,
            cpi_check: None,
        }
    }
    fn reason(&mut self, cond: bool, tags: &'static [P], why: &str) {
        if cond {
            self.reasons.push(Reason {
                why: why.to_string(),
                tags,
            });
        }
    }
    fn check(
        &mut self,
        key: Pubkey,
        tags: &[P],
        what: &'static str,
        f: impl Fn(Option<&AccountSharedData>) -> Result<(), String> + 'static,
    ) {
        self.checks.push(Check {
            key,
            tags: tags.to_vec(),
            what,
            f: Box::new(f),
        });
    }
    /// Token balance and delegation after the transaction.
    fn balance(&mut self, key: Pubkey, tags: &[P], what: &'static str, amount: u64) {
        self.check(key, tags, what, move |a| {
            let t = a.and_then(|a| TokenAcc::decode(a.data()));
            match t {
                Some(t) if t.amount == amount => Ok(()),
                t => Err(format!(
                    "balance should be {amount}, is {:?}",
                    t.map(|t| t.amount)
                )),
            }
        });
    }
    fn eq<T: PartialEq + std::fmt::Debug + 'static>(
        &mut self,
        key: Pubkey,
        tags: &[P],
        what: &'static str,
        dec: fn(&[u8]) -> Option<T>,
        want: T,
    ) {
        self.check(key, tags, what, move |a| {
            match a.and_then(|a| dec(a.data())) {
                Some(x) if x == want => Ok(()),
                x => Err(format!("expected {want:?}, found {x:?}")),
            }
        });
    }
    fn rl(
        &mut self,
        key: Pubkey,
        tags: &[P],
        what: &'static str,
        dec: fn(&[u8]) -> Option<RateLimit>,
        want: RateLimit,
        now: i64,
    ) {
        self.check(key, tags, what, move |a| {
            match a.and_then(|a| dec(a.data())) {
                Some(x) if x.same(&want, now) => Ok(()),
                x => Err(format!(
                    "expected capacity {} of {} at {now}, found {:?}",
                    want.capacity(now),
                    want.limit,
                    x.map(|x| (x.capacity(now), x))
                )),
            }
        });
    }
}

fn supply_check(p: &mut Plan, s: &Sol, tags: &[P], want: u64) {
    p.check(s.tok.mint, tags, "mint supply", move |a| {
        let x = a.and_then(|a| mint_supply(a.data()));
        if x == Some(want) {
            Ok(())
        } else {
            Err(format!("supply should be {want}, is {x:?}"))
        }
    });
}

fn hook_check(p: &mut Plan, s: &Sol, n: u64) {
    if s.tok.hook {
        let want = s.hook_count() + n;
        p.check(hook_counter(), &["C18"], "transfer hook calls", move |a| {
            let x = a.map(|a| u64::from_le_bytes(a.data()[8..16].try_into().unwrap()));
            if x == Some(want) {
                Ok(())
            } else {
                Err(format!("hook should have run {want} times, ran {x:?}"))
            }
        });
    }
}

/// Fee a Token-2022 fee mint withholds on a transfer.
pub fn fee_of(s: &Sol, amount: u64) -> u64 {
    if s.kind != TokKind::T22Fee || amount == 0 {
        return 0;
    }
    let f = (amount as u128 * s.fee_bp as u128 + 9999) / 10000;
    (f as u64).min(s.max_fee)
}

pub fn other_account(w: &Pubkey) -> Pubkey {
    let mut b = w.to_bytes();
    b[0] ^= 0x5a;
    Pubkey::new_from_array(b)
}

/// The message an outbox item must produce.
pub fn message_of(s: &Sol, key: &Pubkey, i: &OutboxItem) -> Msg {
    Msg {
        source_manager: manager_id().to_bytes(),
        recipient_manager: i.recipient_manager,
        id: key.to_bytes(),
        sender: i.sender.to_bytes(),
        decimals: i.decimals,
        amount: i.amount,
        source_token: s.tok.mint.to_bytes(),
        to: i.recipient,
        to_chain: i.chain,
    }
}

impl Act {
    pub fn plan(&self, w: &World) -> Plan {
        match self {
            Act::Transfer(t) => plan_transfer(w, t),
            Act::Approve { c, owner, a } => {
                let s = &w.sols[*c];
                let from = s.tok.ata(owner);
                let mut p = Plan::new(
                    "approve",
                    *c,
                    vec![approve(
                        &s.tok,
                        from,
                        session_authority(owner, a),
                        *owner,
                        a.amount,
                    )],
                    &[*owner],
                );
                p.reason(s.token(&from).is_none(), &[], "no token account");
                p.touch.push(from);
                p.fail_tags.clear();
                p
            }
            Act::ReleaseOut { c, t, item, revert, payer } => {
                plan_release_out(w, *c, t, item, *revert, *payer)
            }
            Act::ProbeMark { c, t, item } => plan_probe_mark(w, *c, t, item),
            Act::MarkDirect { c, t, signer, signed, item } => {
                let mut p = Plan::new(
                    "mark_released",
                    *c,
                    vec![mark_released_direct(
                        *signer,
                        *signed,
                        *item,
                        registered_transceiver(t),
                    )],
                    &[*signer],
                );
                p.reason(true, &["C09"], "not signed by the transceiver program");
                p
            }
            Act::Receive { c, t, vaa, payer } => plan_receive(w, *c, t, vaa, *payer),
            Act::ProbeAttest { c, t, from, msg, key } => {
                let mut data = vec![0u8];
                data.extend_from_slice(&msg.validated_account(*from));
                let pay = payer(0);
                let mut p = Plan::new(
                    "probe_attest",
                    *c,
                    vec![Instruction {
                        program_id: *t,
                        accounts: vec![
                            AccountMeta::new(pay, true),
                            AccountMeta::new(*key, true),
                            AccountMeta::new_readonly(system_program::id(), false),
                        ],
                        data,
                    }],
                    &[pay, *key],
                );
                p.touch = vec![pay, *key];
                p.fail_tags.clear();
                p
            }
            Act::Redeem { c, t, tmsg, payer } => plan_redeem(w, *c, t, tmsg, *payer),
            Act::ReleaseIn { c, item, acct, revert, wrong_mode, create, payer } => {
                plan_release_in(w, *c, item, *acct, *revert, *wrong_mode, *create, *payer)
            }
            Act::Initialize { c, deployer, mint, chain, limit, burning } => {
                plan_initialize(w, *c, *deployer, *mint, *chain, *limit, *burning)
            }
            Act::InitLut { c, payer, slot } => plan_lut(w, *c, *payer, *slot),
            Act::Gov { c, vaa, payer, alt_replay, cosign } => plan_gov(w, *c, *vaa, *payer, *alt_replay, *cosign),
            Act::TokTransfer { c, from, to, amount } => {
                let s = &w.sols[*c];
                let (fa, ta) = (s.tok.ata(from), s.tok.ata(to));
                let mut p = Plan::new(
                    "token_transfer",
                    *c,
                    vec![token_transfer(&s.tok, fa, ta, *from, *amount)],
                    &[*from],
                );
                p.reason(
                    s.balance(&fa) < *amount || s.token(&fa).is_none() || s.token(&ta).is_none(),
                    &[],
                    "cannot transfer",
                );
                p.reason(s.hook_refuses(), &[], "the transfer hook refuses");
                p.touch = vec![fa, ta, hook_counter(), s.tok.mint];
                p.fail_tags.clear();
                p
            }
            Act::Sub { inner, slot, kind } => plan_sub(w, inner, *slot, *kind),
            _ => {
                if let Some(p) = plan_admin(w, self) {
                    p
                } else {
                    plan_quoter(w, self)
                }
            }
        }
    }

    pub fn ledger(&self) -> usize {
        match self {
            Act::Transfer(t) => t.c,
            Act::Sub { inner, .. } => inner.ledger(),
            Act::Approve { c, .. }
            | Act::ReleaseOut { c, .. }
            | Act::ProbeMark { c, .. }
            | Act::MarkDirect { c, .. }
            | Act::Receive { c, .. }
            | Act::ProbeAttest { c, .. }
            | Act::Redeem { c, .. }
            | Act::ReleaseIn { c, .. }
            | Act::SetPeer { c, .. }
            | Act::Register { c, .. }
            | Act::SetOutLimit { c, .. }
            | Act::SetInLimit { c, .. }
            | Act::SetPaused { c, .. }
            | Act::TransferOwnership { c, .. }
            | Act::Claim { c, .. }
            | Act::Initialize { c, .. }
            | Act::InitLut { c, .. }
            | Act::SetWhPeer { c, .. }
            | Act::BroadcastId { c, .. }
            | Act::BroadcastPeer { c, .. }
            | Act::QInit { c, .. }
            | Act::QFeeRecipient { c, .. }
            | Act::QAssistant { c, .. }
            | Act::QRegChain { c, .. }
            | Act::QRegNtt { c, .. }
            | Act::QDeregNtt { c, .. }
            | Act::QSolPrice { c, .. }
            | Act::QChainPrices { c, .. }
            | Act::QChainParams { c, .. }
            | Act::QRequest { c, .. }
            | Act::QClose { c, .. }
            | Act::Gov { c, .. }
            | Act::TokTransfer { c, .. } => *c,
        }
    }
}

// ------------------------------------------------------------------- outbound

fn plan_transfer(w: &World, t: &TransferAct) -> Plan {
    let s = &w.sols[t.c];
    let now = s.now();
    let from = s.tok.ata(&t.owner);
    let sess = session_authority(&t.owner, &t.a);
    let mut ixs = vec![];
    let mut signers = vec![t.payer, t.item];
    let pre = s.token(&from);
    let mut delegate = pre.as_ref().and_then(|p| p.delegate);
    let mut delegated = pre.as_ref().map_or(0, |p| p.delegated);
    let mut b = t.a.clone();
    let mut bad_signer = false;
    match t.approve {
        1 => {}
        k => {
            let mut amount = t.a.amount;
            match k {
                2 => amount /= 2,
                3 => b.amount = b.amount.wrapping_add(1),
                4 => b.chain = b.chain.wrapping_add(256),
                5 => b.recipient[31] ^= 1,
                6 => b.should_queue = !b.should_queue,
                7 => bad_signer = true,
                _ => {}
            }
            let d = session_authority(&t.owner, &b);
            let signer = if bad_signer { attacker() } else { t.owner };
            signers.push(signer);
            ixs.push(approve(&s.tok, from, d, signer, amount));
            delegate = Some(d);
            delegated = amount;
        }
    }
    ixs.push(transfer(
        s.burning ^ t.wrong_mode,
        t.payer,
        &s.tok,
        from,
        t.owner,
        t.item,
        &t.a,
    ));
    let mut p = Plan::new("transfer", t.c, ixs, &signers);
    p.fail_tags = vec!["C24", "C05", "C07", "C08", "C10", "C01", "C11", "C09", "C12", "C16", "C18"];
    p.decide_tags = vec!["C05", "C08", "C10", "C12", "C16"];
    let cfg = match s.config() {
        Some(c) => c,
        None => {
            p.reason(true, &["C17"], "not initialised");
            return p;
        }
    };
    let peer = s.peer(t.a.chain);
    p.reason(bad_signer && t.owner != attacker(), &["C10"], "approval signed by a stranger");
    p.reason(cfg.paused, &["C12"], "paused");
    p.reason(cfg.enabled == 0, &["C24", "C09"], "no transceiver to carry it");
    p.reason(t.wrong_mode, &["C16"], "wrong mode");
    p.reason(peer.is_none(), &["C09", "C24"], "no peer on that chain");
    p.reason(
        s.l.get(&t.item).map_or(false, |a| *a.owner() != system_program::id()),
        &["C09", "C01"],
        "outbox item exists",
    );
    let pre = match pre {
        Some(x) => x,
        None => {
            p.reason(true, &[], "no token account");
            return p;
        }
    };
    let peer = match peer {
        Some(x) => x,
        None => return p,
    };
    let (tamt, tdec, amount) = trim(t.a.amount, s.tok.decimals, peer.decimals);
    p.reason(pre.amount < amount, &["C01", "C11"], "balance too low");
    p.reason(
        delegate != Some(sess) || delegated < amount,
        &["C10"],
        "sender did not approve exactly this transfer",
    );
    p.reason(s.hook_refuses(), &["C18"], "the transfer hook refuses");
    if s.kind == TokKind::T22Fee {
        p.decide_tags.push("C18");
        let tags: &[P] = if s.burning { &["C18", "C01", "C16"] } else { &["C18", "C01"] };
        p.reason(fee_of(s, amount) > 0, tags, "fee-charging token");
    }
    let orl = s.orl().unwrap();
    let irl = s.irl(t.a.chain).unwrap();
    let fits = orl.capacity(now) >= amount;
    p.may_refuse = orl.ts > now || irl.ts > now;
    p.reason(
        !fits && !t.a.should_queue,
        &["C05", "C08"],
        "exceeds outbound limit",
    );
    if !p.reasons.is_empty() {
        return p;
    }
    p.touch = vec![t.payer];
    p.balance(from, &["C10", "C11", "C01"], "sender balance", pre.amount - amount);
    let left = delegated - amount;
    p.check(from, &["C10"], "remaining approval", move |a| {
        let x = a.and_then(|a| TokenAcc::decode(a.data()));
        match x {
            Some(x) if x.delegated == left => Ok(()),
            x => Err(format!("expected {left} approved, found {x:?}")),
        }
    });
    let cust = s.custody_balance();
    if s.burning {
        p.balance(s.tok.custody(), &["C16", "C01"], "custody balance", cust);
        supply_check(&mut p, s, &["C01", "C16", "C11"], s.supply() - amount);
    } else {
        p.balance(s.tok.custody(), &["C01", "C16", "C11"], "custody balance", cust + amount);
        supply_check(&mut p, s, &["C01", "C16"], s.supply());
    }
    hook_check(&mut p, s, 1);
    let release_ts = if fits { now } else { now + DAY };
    let want = OutboxItem {
        amount: tamt,
        decimals: tdec,
        sender: t.owner,
        chain: t.a.chain,
        recipient_manager: peer.address,
        recipient: t.a.recipient,
        release_ts,
        released: 0,
    };
    outbox_checks(&mut p, t.item, want);
    let (o2, i2) = if fits {
        (orl.consumed(now, amount), irl.refilled(now, amount))
    } else {
        (orl, irl)
    };
    p.rl(outbox_rl(), &["C05"], "outbound limit", RateLimit::decode_outbox, o2, now);
    p.rl(inbox_rl(t.a.chain), &["C07", "C06"], "inbound limit (backflow)", RateLimit::decode_inbox, i2, now);
    p
}

fn outbox_checks(p: &mut Plan, item: Pubkey, want: OutboxItem) {
    type F = (&'static str, &'static [P], fn(&OutboxItem) -> String);
    const FIELDS: [F; 6] = [
        ("recorded amount", &["C11", "C01", "C09"], |x| format!("{} x 10^-{}", x.amount, x.decimals)),
        ("recorded sender", &["C09", "C10"], |x| x.sender.to_string()),
        ("recorded destination", &["C09", "C10"], |x| {
            format!("{} {:?} {:?}", x.chain, x.recipient_manager, x.recipient)
        }),
        ("release time", &["C08", "C05"], |x| x.release_ts.to_string()),
        ("release marks", &["C09", "C15", "C08"], |x| format!("{:x}", x.released)),
        ("owner program", &["C09"], |_| String::new()),
    ];
    for (what, tags, f) in FIELDS {
        let want = want.clone();
        p.check(item, tags, what, move |a| {
            let a = a.ok_or("item missing")?;
            if *a.owner() != manager_id() {
                return Err("item not owned by the manager".into());
            }
            let x = OutboxItem::decode(a.data()).ok_or("item undecodable")?;
            if f(&x) == f(&want) {
                Ok(())
            } else {
                Err(format!("expected {}, found {}", f(&want), f(&x)))
            }
        });
    }
}

fn plan_release_out(w: &World, c: usize, t: &Pubkey, item: &Pubkey, revert: bool, pay: Pubkey) -> Plan {
    let s = &w.sols[c];
    let now = s.now();
    let mut p = Plan::new(
        "release_outbound",
        c,
        vec![release_outbound(t, pay, *item, revert)],
        &[pay],
    );
    p.fail_tags = vec!["C24", "C09", "C08", "C12"];
    p.decide_tags = vec!["C08", "C09", "C12"];
    let cfg = match s.config() {
        Some(c) => c,
        None => {
            p.reason(true, &["C17"], "not initialised");
            return p;
        }
    };
    p.reason(cfg.paused, &["C12"], "paused");
    let it = s.item(item);
    p.reason(it.is_none(), &["C09", "C01"], "not an outbox item");
    let reg = s.reg(t);
    p.reason(reg.is_none(), &["C09", "C15"], "transceiver not registered");
    let (it, reg) = match (it, reg) {
        (Some(a), Some(b)) => (a, b),
        _ => return p,
    };
    p.reason(!s.enabled(t), &["C09", "C04"], "transceiver disabled");
    p.reason(it.released >> reg.id & 1 == 1, &["C09"], "already sent through this transceiver");
    let early = it.release_ts > now;
    p.reason(early && revert, &["C08"], "released too early");
    if !p.reasons.is_empty() {
        return p;
    }
    if early {
        p.noop = true;
        p.fail_tags = vec!["C08", "C24"];
        p.touch = vec![pay];
        outbox_checks(&mut p, *item, it);
        let k = wh_message(t, item);
        p.check(k, &["C08", "C09"], "no message yet", move |a| {
            match a {
                Some(a) if *a.owner() == core_bridge_id() => Err("message posted early".into()),
                _ => Ok(()),
            }
        });
        return p;
    }
    let mut want = it.clone();
    want.released |= 1 << reg.id;
    outbox_checks(&mut p, *item, want);
    let msg = message_of(s, item, &it).wire();
    let em = emitter(t).to_bytes();
    posted_check(&mut p, wh_message(t, item), &["C09", "C11"], em, msg);
    bridge_touch(&mut p, s, pay, t);
    p
}

fn posted_check(p: &mut Plan, key: Pubkey, tags: &[P], em: [u8; 32], payload: Vec<u8>) {
    p.check(key, tags, "posted message", move |a| {
        let a = a.ok_or("no message posted")?;
        if *a.owner() != core_bridge_id() {
            return Err("message not posted through the core bridge".into());
        }
        let x = Posted::decode(a.data()).ok_or("message undecodable")?;
        if x.emitter != em {
            return Err(format!("emitter {:?} instead of {em:?}", x.emitter));
        }
        if x.payload != payload {
            return Err(format!(
                "payload {:?} instead of {:?}",
                Msg::parse(&x.payload),
                Msg::parse(&payload)
            ));
        }
        if x.finality != 32 {
            return Err(format!("finality {}", x.finality));
        }
        Ok(())
    });
}

fn bridge_touch(p: &mut Plan, s: &Sol, pay: Pubkey, t: &Pubkey) {
    p.touch = vec![pay, bridge(), sequence(&emitter(t))];
    let want = s.l.lamports(&fee_collector()) + s.bridge_fee();
    p.check(fee_collector(), &["C09", "C22"], "core bridge fee", move |a| {
        let x = a.map_or(0, |a| a.lamports());
        if x == want {
            Ok(())
        } else {
            Err(format!("fee collector should hold {want}, holds {x}"))
        }
    });
}

fn plan_probe_mark(w: &World, c: usize, t: &Pubkey, item: &Pubkey) -> Plan {
    let s = &w.sols[c];
    let mut p = Plan::new("mark_released", c, vec![probe_mark(t, *item)], &[]);
    p.fail_tags = vec!["C24", "C09", "C08", "C12"];
    p.decide_tags = vec!["C08", "C09", "C12"];
    let cfg = match s.config() {
        Some(c) => c,
        None => {
            p.reason(true, &["C17"], "not initialised");
            return p;
        }
    };
    p.reason(cfg.paused, &["C12"], "paused");
    let it = s.item(item);
    p.reason(it.is_none(), &["C09"], "not an outbox item");
    let reg = s.reg(t);
    p.reason(reg.is_none(), &["C09", "C15"], "transceiver not registered");
    let (it, reg) = match (it, reg) {
        (Some(a), Some(b)) => (a, b),
        _ => return p,
    };
    p.reason(!s.enabled(t), &["C09", "C04"], "transceiver disabled");
    p.reason(it.released >> reg.id & 1 == 1, &["C09"], "already sent through this transceiver");
    if !p.reasons.is_empty() {
        return p;
    }
    let mut want = it.clone();
    if it.release_ts <= s.now() {
        want.released |= 1 << reg.id;
    } else {
        p.noop = true;
        p.fail_tags = vec!["C08", "C24"];
    }
    outbox_checks(&mut p, *item, want);
    p
}

// -------------------------------------------------------------------- inbound

fn plan_receive(w: &World, c: usize, t: &Pubkey, vaa: &Pubkey, pay: Pubkey) -> Plan {
    let s = &w.sols[c];
    let data = s.l.data(vaa).unwrap_or(&[]);
    let posted = Posted::decode(data);
    let msg = posted.as_ref().and_then(|p| Msg::parse(&p.payload));
    let chain = posted.as_ref().map_or(0, |p| p.emitter_chain);
    // Where a careless reader would find the id of a message that does not parse.
    let id = posted
        .as_ref()
        .and_then(|p| p.payload.get(70..102)?.try_into().ok())
        .unwrap_or([0; 32]);
    let mut p = Plan::new(
        "receive_message",
        c,
        vec![receive(t, pay, *vaa, chain, &id)],
        &[pay],
    );
    p.fail_tags = vec!["C24", "C03", "C12"];
    p.decide_tags = vec!["C03", "C12"];
    let cfg = match s.config() {
        Some(c) => c,
        None => {
            p.reason(true, &["C17"], "not initialised");
            return p;
        }
    };
    p.reason(cfg.paused, &["C12"], "paused");
    p.reason(s.l.owner(vaa) != core_bridge_id(), &["C03"], "VAA account not owned by the core bridge");
    p.reason(data.len() < 3 || &data[..3] != b"vaa", &["C03"], "message account instead of a VAA");
    let (posted, msg) = match (posted, msg) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            p.reason(true, &["C03"], "unparsable message");
            return p;
        }
    };
    let peer = s.tpeer(t, chain);
    p.reason(peer.is_none(), &["C03"], "no transceiver peer on that chain");
    p.reason(
        peer.is_some() && peer != Some(posted.emitter),
        &["C03"],
        "emitter is not the registered peer",
    );
    p.reason(msg.to_chain != cfg.chain_id, &["C03"], "addressed to another chain");
    let tm = transceiver_message(t, chain, &msg.id);
    p.reason(
        s.l.get(&tm).map_or(false, |a| *a.owner() != system_program::id()),
        &["C03", "C02", "C04"],
        "already received",
    );
    if !p.reasons.is_empty() {
        return p;
    }
    p.touch = vec![pay];
    let t = *t;
    let want = msg.clone();
    p.check(tm, &["C03", "C11"], "validated message", move |a| {
        let a = a.ok_or("missing")?;
        if *a.owner() != t {
            return Err("wrong owner".into());
        }
        match Msg::decode_validated(a.data()) {
            Some((f, m)) if f == chain && m == want => Ok(()),
            x => Err(format!("expected {want:?} from {chain}, found {x:?}")),
        }
    });
    p
}

fn plan_redeem(w: &World, c: usize, t: &Pubkey, tmsg: &Pubkey, pay: Pubkey) -> Plan {
    let s = &w.sols[c];
    let now = s.now();
    let dec = s.l.data(tmsg).and_then(Msg::decode_validated);
    let (from, msg) = match dec {
        Some((f, m)) => (f, Some(m)),
        None => (0, None),
    };
    let key = msg
        .as_ref()
        .map_or(Pubkey::default(), |m| inbox_item(from, &m.manager_msg()));
    let mut p = Plan::new(
        "redeem",
        c,
        vec![redeem(pay, &s.tok, t, *tmsg, from, key)],
        &[pay],
    );
    p.fail_tags = vec!["C24", "C02", "C04", "C06", "C07", "C12", "C11", "C15"];
    p.decide_tags = vec!["C03", "C04", "C02"];
    let cfg = match s.config() {
        Some(c) => c,
        None => {
            p.reason(true, &["C17"], "not initialised");
            return p;
        }
    };
    let msg = match msg {
        Some(m) => m,
        None => {
            p.reason(true, &["C03"], "not a validated message");
            return p;
        }
    };
    p.reason(cfg.threshold == 0, &["C04"], "zero threshold");
    let reg = s.reg(t);
    p.reason(reg.is_none(), &["C04", "C03"], "transceiver not registered");
    p.reason(reg.is_some() && !s.enabled(t), &["C04"], "transceiver disabled");
    p.reason(s.l.owner(tmsg) != *t, &["C03", "C04"], "message not validated by that transceiver");
    let peer = s.peer(from);
    p.reason(peer.is_none(), &["C03"], "no manager peer on that chain");
    p.reason(
        peer.map_or(false, |x| x.address != msg.source_manager),
        &["C03"],
        "source manager is not the registered peer",
    );
    p.reason(msg.to_chain != cfg.chain_id, &["C03"], "addressed to another chain");
    p.reason(
        msg.recipient_manager != manager_id().to_bytes(),
        &["C03"],
        "addressed to another manager",
    );
    let amount = untrim(msg.amount, msg.decimals, s.tok.decimals);
    p.reason(amount.is_none(), &["C11", "C01"], "amount overflows here");
    let it = s.inbox_item(&key);
    let (reg, amount) = match (reg, amount) {
        (Some(a), Some(b)) => (a, b),
        _ => return p,
    };
    let votes = it.as_ref().map_or(0, |i| i.votes) | 1u128.checked_shl(reg.id as u32).unwrap_or(0);
    let status = it.as_ref().map_or(Status::NotApproved, |i| i.status);
    let quorum = (votes & cfg.enabled).count_ones() >= cfg.threshold as u32;
    p.reason(
        quorum && status != Status::NotApproved,
        &["C02", "C06", "C01", "C08"],
        "already approved or released",
    );
    if !p.reasons.is_empty() {
        return p;
    }
    let irl = s.irl(from).unwrap();
    let orl = s.orl().unwrap();
    let fits = irl.capacity(now) >= amount;
    p.may_refuse = orl.ts > now || irl.ts > now;
    let status2 = if !quorum {
        status
    } else if fits {
        Status::After(now)
    } else {
        Status::After(now + DAY)
    };
    let (i2, o2) = if quorum && fits {
        (irl.consumed(now, amount), orl.refilled(now, amount))
    } else {
        (irl, orl)
    };
    p.touch = vec![pay];
    // First writer fixes amount and recipient; the address is the content hash.
    let want = InboxItem {
        init: true,
        amount,
        recipient: Pubkey::new_from_array(msg.to),
        votes,
        status: status2,
    };
    inbox_checks(&mut p, key, want);
    p.rl(inbox_rl(from), &["C06"], "inbound limit", RateLimit::decode_inbox, i2, now);
    p.rl(outbox_rl(), &["C07", "C05"], "outbound limit (backflow)", RateLimit::decode_outbox, o2, now);
    p
}

fn inbox_checks(p: &mut Plan, key: Pubkey, want: InboxItem) {
    type F = (&'static str, &'static [P], fn(&InboxItem) -> String);
    const FIELDS: [F; 4] = [
        ("credited amount", &["C02", "C11", "C01"], |x| x.amount.to_string()),
        ("recipient", &["C02", "C03"], |x| x.recipient.to_string()),
        ("attestations", &["C04", "C15"], |x| format!("{:x}", x.votes)),
        ("release status", &["C02", "C04", "C06", "C08"], |x| format!("{:?}", x.status)),
    ];
    for (what, tags, f) in FIELDS {
        let want = want.clone();
        p.check(key, tags, what, move |a| {
            let a = a.ok_or("inbox item missing")?;
            if *a.owner() != manager_id() {
                return Err("inbox item not owned by the manager".into());
            }
            let x = InboxItem::decode(a.data()).ok_or("inbox item undecodable")?;
            if f(&x) == f(&want) {
                Ok(())
            } else {
                Err(format!("expected {}, found {}", f(&want), f(&x)))
            }
        });
    }
}

#[allow(clippy::too_many_arguments)]
fn plan_release_in(
    w: &World,
    c: usize,
    item: &Pubkey,
    acct: u8,
    revert: bool,
    wrong_mode: bool,
    create: bool,
    pay: Pubkey,
) -> Plan {
    let s = &w.sols[c];
    let now = s.now();
    let it = s.inbox_item(item);
    let wallet = it.as_ref().map_or(attacker(), |i| i.recipient);
    let right = s.tok.ata(&wallet);
    let dest = match acct {
        0 => right,
        1 => s.tok.ata(&attacker()),
        2 => other_account(&right),
        _ => s.tok.custody(),
    };
    let mut ixs = vec![];
    if create {
        ixs.push(create_ata(&s.tok, pay, wallet));
    }
    ixs.push(release_inbound(
        s.burning ^ wrong_mode,
        pay,
        &s.tok,
        *item,
        dest,
        revert,
    ));
    let mut p = Plan::new("release_inbound", c, ixs, &[pay]);
    p.fail_tags = vec!["C24", "C02", "C08", "C12", "C16", "C18"];
    p.decide_tags = vec!["C02", "C08", "C12", "C16", "C04"];
    let cfg = match s.config() {
        Some(c) => c,
        None => {
            p.reason(true, &["C17"], "not initialised");
            return p;
        }
    };
    p.reason(cfg.paused, &["C12"], "paused");
    p.reason(wrong_mode, &["C16"], "wrong mode");
    let it = match it {
        Some(i) => i,
        None => {
            p.reason(true, &["C02", "C03"], "not an inbox item");
            return p;
        }
    };
    p.reason(dest != right, &["C02", "C03"], "not the recipient's associated account");
    p.reason(it.status == Status::Released, &["C02", "C01"], "already released");
    let early = match it.status {
        Status::NotApproved => {
            p.reason(revert, &["C04", "C08"], "not approved");
            true
        }
        Status::After(t) => {
            p.reason(t > now && revert, &["C08"], "released too early");
            t > now
        }
        Status::Released => false,
    };
    let exists = s.token(&right).is_some();
    p.reason(!exists && !create, &[], "recipient account missing");
    let cust = s.custody_balance();
    let supply = s.supply();
    if !early {
        p.reason(s.hook_refuses() && right != s.tok.custody(), &["C18"], "the transfer hook refuses");
        p.reason(!s.burning && cust < it.amount, &["C01", "C02", "C16"], "custody too low");
        p.reason(
            s.burning && supply.checked_add(it.amount).is_none(),
            &["C01"],
            "supply overflow",
        );
    }
    if !p.reasons.is_empty() {
        return p;
    }
    p.touch = vec![pay];
    if create && !exists {
        p.touch.push(wallet);
    }
    if early {
        p.noop = true;
        p.fail_tags = vec!["C08", "C24"];
        let want = it.clone();
        inbox_checks(&mut p, *item, want);
        let b = s.balance(&right);
        p.balance(right, &["C08", "C02", "C04"], "recipient balance", b);
        return p;
    }
    let mut want = it.clone();
    want.status = Status::Released;
    inbox_checks(&mut p, *item, want);
    let custody = s.tok.custody();
    if right == custody {
        let b = if s.burning { cust + it.amount } else { cust };
        p.balance(custody, &["C01", "C02"], "custody balance", b);
    } else {
        let got = it.amount - fee_of(s, it.amount);
        p.balance(right, &["C02", "C01", "C11"], "recipient balance", s.balance(&right) + got);
        let b = if s.burning { cust } else { cust - it.amount };
        p.balance(custody, &["C01", "C16", "C02"], "custody balance", b);
    }
    let sup = if s.burning { supply + it.amount } else { supply };
    supply_check(&mut p, s, &["C01", "C16"], sup);
    // The token program does not call the hook for a transfer to oneself.
    hook_check(&mut p, s, (right != custody) as u64);
    p
}

// ---------------------------------------------------------------------- admin

fn config_checks(p: &mut Plan, want: Config) {
    type F = (&'static str, &'static [P], fn(&Config) -> String);
    const FIELDS: [F; 5] = [
        ("owner", &["C14", "C13"], |x| format!("{} pending {:?}", x.owner, x.pending_owner)),
        ("paused flag", &["C12", "C13"], |x| x.paused.to_string()),
        ("transceivers", &["C15", "C04", "C13"], |x| format!("next {} enabled {:x}", x.next_id, x.enabled)),
        ("threshold", &["C04", "C15", "C13"], |x| x.threshold.to_string()),
        ("deployment parameters", &["C17", "C13"], |x| {
            format!("{} {} {} {} {}", x.mint, x.token_program, x.burning, x.chain_id, x.custody)
        }),
    ];
    for (what, tags, f) in FIELDS {
        let want = want.clone();
        p.check(ix::config(), tags, what, move |a| {
            let x = a
                .and_then(|a| Config::decode(a.data()))
                .ok_or("configuration undecodable")?;
            if f(&x) == f(&want) {
                Ok(())
            } else {
                Err(format!("expected {}, found {}", f(&want), f(&x)))
            }
        });
    }
}

fn authority_check(p: &mut Plan, want: Option<Pubkey>) {
    p.check(
        program_data(&manager_id()),
        &["C14"],
        "upgrade authority",
        move |a| {
            let x = a.and_then(|a| upgrade_authority(a.data()));
            if x == Some(want) {
                Ok(())
            } else {
                Err(format!("expected {want:?}, found {x:?}"))
            }
        },
    );
}

fn plan_admin(w: &World, act: &Act) -> Option<Plan> {
    let c = act.ledger();
    let s = &w.sols[c];
    let cfg = s.config();
    let now = s.now();
    let pay = payer(0);
    let owner = cfg.as_ref().map(|c| c.owner);
    let auth = s
        .l
        .data(&program_data(&manager_id()))
        .and_then(upgrade_authority)
        .flatten();
    let mut p = match act {
        Act::SetPeer { signer, chain, address, limit, decimals, .. } => {
            let mut p = Plan::new(
                "set_peer",
                c,
                vec![set_peer(pay, *signer, *chain, address, *limit, *decimals)],
                &[pay, *signer],
            );
            p.reason(owner != Some(*signer), &["C13", "C03"], "not the owner");
            let (a, d) = (*address, *decimals);
            p.eq(peer(*chain), &["C03", "C13"], "peer", Peer::decode, Peer { address: a, decimals: d });
            p.rl(
                inbox_rl(*chain),
                &["C06", "C13"],
                "inbound limit",
                RateLimit::decode_inbox,
                RateLimit::fresh(*limit),
                now,
            );
            p.fail_tags = vec!["C13", "C24"];
            p
        }
        Act::Register { signer, t, .. } => {
            let mut p = Plan::new(
                "register_transceiver",
                c,
                vec![register_transceiver(*signer, pay, t)],
                &[pay, *signer],
            );
            p.reason(owner != Some(*signer), &["C13", "C15"], "not the owner");
            p.reason(
                !s.l.get(t).map_or(false, |a| a.executable()),
                &["C15"],
                "not a program",
            );
            p.reason(s.reg(t).is_some(), &["C15", "C04"], "already registered");
            if let Some(cfg) = &cfg {
                p.reason(cfg.next_id >= 128, &["C15", "C04"], "transceiver ids exhausted");
                if cfg.next_id < 128 {
                    let mut want = cfg.clone();
                    want.enabled |= 1 << cfg.next_id;
                    want.next_id += 1;
                    config_checks(&mut p, want);
                    p.eq(
                        registered_transceiver(t),
                        &["C15", "C04"],
                        "registration",
                        Registered::decode,
                        Registered { id: cfg.next_id, address: *t },
                    );
                }
            }
            p.fail_tags = vec!["C15", "C24"];
            p
        }
        Act::SetOutLimit { signer, limit, .. } => {
            let mut p = Plan::new(
                "set_outbound_limit",
                c,
                vec![set_outbound_limit(*signer, *limit)],
                &[*signer],
            );
            p.reason(owner != Some(*signer), &["C13", "C05"], "not the owner");
            if let Some(r) = s.orl() {
                p.may_refuse = r.ts > now;
                p.rl(outbox_rl(), &["C05", "C13"], "outbound limit", RateLimit::decode_outbox, r.with_limit(now, *limit), now);
            }
            p.fail_tags = vec!["C13", "C05", "C24"];
            p
        }
        Act::SetInLimit { signer, chain, limit, .. } => {
            let mut p = Plan::new(
                "set_inbound_limit",
                c,
                vec![set_inbound_limit(*signer, *chain, *limit)],
                &[*signer],
            );
            p.reason(owner != Some(*signer), &["C13", "C06"], "not the owner");
            match s.irl(*chain) {
                Some(r) => {
                    p.may_refuse = r.ts > now;
                    p.rl(inbox_rl(*chain), &["C06", "C13"], "inbound limit", RateLimit::decode_inbox, r.with_limit(now, *limit), now)
                }
                None => p.reason(true, &[], "no such peer"),
            }
            p.fail_tags = vec!["C13", "C06", "C24"];
            p
        }
        Act::SetPaused { signer, paused, .. } => {
            let mut p = Plan::new(
                "set_paused",
                c,
                vec![set_paused(*signer, *paused)],
                &[*signer],
            );
            p.reason(owner != Some(*signer), &["C13", "C12"], "not the owner");
            if let Some(cfg) = &cfg {
                let mut want = cfg.clone();
                want.paused = *paused;
                config_checks(&mut p, want);
            }
            p.fail_tags = vec!["C12", "C13", "C24"];
            p
        }
        Act::TransferOwnership { signer, new, one_step, cosign, .. } => {
            let mut i = transfer_ownership(*signer, *new, *one_step);
            let mut signers = vec![*signer];
            if *cosign {
                i.accounts[2].is_signer = true;
                signers.push(*new);
            }
            let mut p = Plan::new(
                if *one_step { "transfer_ownership_one_step" } else { "transfer_ownership" },
                c,
                vec![i],
                &signers,
            );
            p.reason(owner != Some(*signer), &["C13", "C14"], "not the owner");
            p.reason(auth != Some(*signer), &["C14"], "upgrade authority is held elsewhere");
            if let Some(cfg) = &cfg {
                let mut want = cfg.clone();
                if *one_step {
                    want.owner = *new;
                    want.pending_owner = None;
                    authority_check(&mut p, Some(*new));
                } else {
                    want.pending_owner = Some(*new);
                    authority_check(&mut p, Some(upgrade_lock()));
                }
                config_checks(&mut p, want);
            }
            p.fail_tags = vec!["C14", "C24"];
            p
        }
        Act::Claim { signer, .. } => {
            let mut p = Plan::new("claim_ownership", c, vec![claim_ownership(*signer)], &[*signer]);
            let ok = cfg.as_ref().map_or(false, |c| {
                c.pending_owner == Some(*signer) || c.owner == *signer
            });
            p.reason(!ok, &["C14", "C13"], "neither pending owner nor owner");
            p.reason(auth != Some(upgrade_lock()), &["C14"], "no transfer in progress");
            if let Some(cfg) = &cfg {
                let mut want = cfg.clone();
                want.owner = *signer;
                want.pending_owner = None;
                config_checks(&mut p, want);
                authority_check(&mut p, Some(*signer));
            }
            p.fail_tags = vec!["C14", "C24"];
            p
        }
        Act::SetWhPeer { signer, t, chain, address, .. } => {
            let mut p = Plan::new(
                "set_wormhole_peer",
                c,
                vec![set_wormhole_peer(t, *signer, pay, *chain, address)],
                &[pay, *signer],
            );
            p.reason(owner != Some(*signer), &["C13", "C22"], "not the owner");
            p.reason(s.tpeer(t, *chain).is_some(), &["C22", "C03"], "peer already set");
            p.eq(transceiver_peer(t, *chain), &["C22", "C03"], "transceiver peer", decode_transceiver_peer, *address);
            p.fail_tags = vec!["C22", "C24"];
            p
        }
        Act::BroadcastId { t, payer, message, .. } => {
            let mut p = Plan::new(
                "broadcast_id",
                c,
                vec![broadcast_id(t, *payer, s.tok.mint, *message)],
                &[*payer, *message],
            );
            let mut v = vec![0x9c, 0x23, 0xbd, 0x3b];
            v.extend_from_slice(manager_id().as_ref());
            v.push(s.burning as u8);
            v.extend_from_slice(s.tok.mint.as_ref());
            v.push(s.tok.decimals);
            posted_check(&mut p, *message, &["C22"], emitter(t).to_bytes(), v);
            bridge_touch(&mut p, s, *payer, t);
            p.reason(s.l.get(message).is_some(), &["C22"], "message account exists");
            p.fail_tags = vec!["C22", "C24"];
            p.decide_tags.push("C22");
            p.reason(cfg.is_none(), &["C17"], "not initialised");
            return Some(p);
        }
        Act::BroadcastPeer { t, payer, chain, message, .. } => {
            let mut p = Plan::new(
                "broadcast_peer",
                c,
                vec![broadcast_peer(t, *payer, *chain, *message)],
                &[*payer, *message],
            );
            match s.tpeer(t, *chain) {
                None => p.reason(true, &["C22"], "no such peer"),
                Some(a) => {
                    let mut v = vec![0x18, 0xfc, 0x67, 0xc2];
                    v.extend_from_slice(&chain.to_be_bytes());
                    v.extend_from_slice(&a);
                    posted_check(&mut p, *message, &["C22"], emitter(t).to_bytes(), v);
                    bridge_touch(&mut p, s, *payer, t);
                }
            }
            p.reason(s.l.get(message).is_some(), &["C22"], "message account exists");
            p.fail_tags = vec!["C22", "C24"];
            p.decide_tags.push("C22");
            p.reason(cfg.is_none(), &["C17"], "not initialised");
            return Some(p);
        }
        _ => return None,
    };
    p.reason(cfg.is_none(), &["C17"], "not initialised");
    p.decide_tags.extend(["C13"]);
    p.touch.push(pay);
    if let Some(signer) = p
        .tx
        .signers
        .iter()
        .find(|k| **k != pay)
        .copied()
    {
        // lamports of a signer never change here, but it is not worth a rule
        p.touch.push(signer);
    }
    Some(p)
}

fn plan_initialize(
    w: &World,
    c: usize,
    deployer: Pubkey,
    mint: u8,
    chain: u16,
    limit: u64,
    burning: bool,
) -> Plan {
    let s = &w.sols[c];
    let pay = payer(0);
    // bit 4: the deployment record of somebody else's program
    let foreign = mint & 16 != 0;
    let tok = match mint & 3 {
        0 => s.tok.clone(),
        k => Tok {
            mint: if k == 1 { s.other_mint } else { named("empty-mint", 0) },
            hook: false,
            ..s.tok.clone()
        },
    };
    let mut i = initialize(pay, deployer, &tok, chain, limit, burning);
    if foreign {
        i.accounts[2].pubkey = foreign_program_data();
    }
    let mut p = Plan::new("initialize", c, vec![i], &[pay, deployer]);
    p.reason(foreign, &["C17"], "another program's deployment record");
    let auth = s
        .l
        .data(&program_data(&manager_id()))
        .and_then(upgrade_authority)
        .flatten();
    p.fail_tags = vec!["C17", "C24"];
    p.decide_tags = vec!["C17"];
    p.reason(auth != Some(deployer), &["C17"], "not the deployer");
    p.reason(s.config().is_some(), &["C17"], "already initialised");
    let ma = s
        .l
        .data(&tok.mint)
        .map(|d| (d[0] == 1).then(|| Pubkey::try_from(&d[4..36]).unwrap()));
    p.reason(
        burning && ma != Some(Some(token_authority())),
        &["C17", "C16"],
        "burning mode without mint authority",
    );
    if !p.reasons.is_empty() {
        return p;
    }
    p.touch = vec![pay, tok.custody()];
    config_checks(
        &mut p,
        Config {
            owner: deployer,
            pending_owner: None,
            mint: tok.mint,
            token_program: tok.program,
            burning,
            chain_id: chain,
            next_id: 0,
            threshold: 1,
            enabled: 0,
            paused: false,
            custody: tok.custody(),
        },
    );
    for ch in p.checks.iter_mut() {
        ch.tags.push("C17");
    }
    p.rl(
        outbox_rl(),
        &["C17", "C05"],
        "outbound limit",
        RateLimit::decode_outbox,
        RateLimit::fresh(limit),
        s.now(),
    );
    p
}

pub fn lut_entries(d: &[u8]) -> Vec<Pubkey> {
    if d.len() < 56 {
        return vec![];
    }
    d[56..]
        .chunks_exact(32)
        .map(|c| Pubkey::try_from(c).unwrap())
        .collect()
}

pub fn lut_expected(tok: &Tok, transceiver: &Pubkey) -> Vec<Pubkey> {
    vec![
        manager_id(),
        ix::config(),
        tok.custody(),
        tok.program,
        tok.mint,
        token_authority(),
        outbox_rl(),
        bridge(),
        fee_collector(),
        sequence(&emitter(transceiver)),
        core_bridge_id(),
        system_program::id(),
        solana_sdk::sysvar::clock::id(),
        solana_sdk::sysvar::rent::id(),
    ]
}

fn plan_lut(w: &World, c: usize, pay: Pubkey, slot: u64) -> Plan {
    let s = &w.sols[c];
    // the transceiver whose bridge accounts are listed is the caller's choice
    let t = [manager_id(), transceiver_id()][slot as usize % 2];
    let mut p = Plan::new("initialize_lut", c, vec![initialize_lut(pay, &s.tok, slot, &t)], &[pay]);
    p.fail_tags = vec!["C23", "C24"];
    p.decide_tags = vec!["C23"];
    p.reason(s.config().is_none(), &["C17"], "not initialised");
    let addr = lut_address(slot);
    let existing = s.l.data(&addr).map(lut_entries);
    let cur = s.l.clock.slot;
    p.reason(
        !(slot < cur && slot + 64 >= cur),
        &[],
        "slot not recent",
    );
    let pre = existing.unwrap_or_default();
    p.reason(pre.len() + 14 > 256, &[], "table full");
    if !p.reasons.is_empty() {
        return p;
    }
    p.touch = vec![pay];
    let mut want = pre;
    want.extend(lut_expected(&s.tok, &t));
    let mut sorted = want.clone();
    sorted.sort();
    p.check(addr, &["C23"], "lookup table entries", move |a| {
        let a = a.ok_or("no lookup table")?;
        let mut e = lut_entries(a.data());
        e.sort();
        if e != sorted {
            return Err(format!("entries {e:?} instead of {sorted:?}"));
        }
        // LookupTableMeta: authority must be the manager's, never the caller's
        let d = a.data();
        if d[21] != 1 || d[22..54] != lut_authority().to_bytes() {
            return Err("table authority is not the manager's".into());
        }
        Ok(())
    });
    p.check(lut_pda(), &["C23"], "recorded lookup table", move |a| {
        let a = a.ok_or("no record")?;
        let d = a.data();
        if *a.owner() != manager_id() || d.len() < 41 || d[9..41] != addr.to_bytes() {
            return Err("record does not point at the new table".into());
        }
        Ok(())
    });
    p
}

// ------------------------------------------------------------ quoter

fn mul_div(a: u64, b: u64, c: u64) -> Option<u64> {
    if c == 0 {
        return None;
    }
    u64::try_from(a as u128 * b as u128 / c as u128).ok()
}

pub fn relay_fee(i: &QInstance, ch: &QChain, n: &QNtt, dropoff: u64) -> Option<u64> {
    const G: u64 = 1_000_000_000;
    let native = dropoff.checked_add(mul_div(ch.gas, n.gas_cost as u64, G)?)?;
    let usd = mul_div(ch.native, native, G)?.checked_add(ch.base)?;
    mul_div(usd, G, i.sol_price)
}

fn plan_quoter(w: &World, act: &Act) -> Plan {
    let c = act.ledger();
    let s = &w.sols[c];
    let inst = s.l.data(&q_instance()).and_then(QInstance::decode);
    let owner = inst.as_ref().map(|i| i.owner);
    let authorised = |k: &Pubkey| {
        inst.as_ref()
            .map_or(false, |i| i.owner == *k || i.assistant == *k)
    };
    let chain_acc = |ch: u16| s.l.data(&q_chain(ch)).and_then(QChain::decode);
    let mut p = match act {
        Act::QInit { owner, fee_recipient, foreign, .. } => {
            let mut i = q_initialize(*owner, *fee_recipient);
            if *foreign {
                i.accounts[3].pubkey = foreign_program_data();
            }
            let mut p = Plan::new("quoter_initialize", c, vec![i], &[*owner]);
            p.reason(*foreign, &["C21"], "another program's deployment record");
            let auth = s
                .l
                .data(&program_data(&quoter_id()))
                .and_then(upgrade_authority)
                .flatten();
            p.reason(auth != Some(*owner), &["C21"], "not the deployer");
            p.reason(inst.is_some(), &["C21"], "already initialised");
            p.reason(*fee_recipient == Pubkey::default(), &["C21"], "default fee recipient");
            p.eq(
                q_instance(),
                &["C21"],
                "instance",
                QInstance::decode,
                QInstance { owner: *owner, assistant: Pubkey::default(), fee_recipient: *fee_recipient, sol_price: 0 },
            );
            p.touch = vec![*owner];
            p.fail_tags = vec!["C21", "C24"];
            p.decide_tags = vec!["C21"];
            return p;
        }
        Act::QFeeRecipient { signer, to, .. } => {
            let mut p = Plan::new("quoter_set_fee_recipient", c, vec![q_set_fee_recipient(*signer, *to)], &[*signer]);
            p.reason(owner != Some(*signer), &["C21"], "not the owner");
            p.reason(*to == Pubkey::default(), &["C21"], "default fee recipient");
            if let Some(i) = &inst {
                p.eq(q_instance(), &["C21", "C20"], "instance", QInstance::decode, QInstance { fee_recipient: *to, ..i.clone() });
            }
            p
        }
        Act::QAssistant { signer, to, .. } => {
            let mut p = Plan::new("quoter_set_assistant", c, vec![q_set_assistant(*signer, *to)], &[*signer]);
            p.reason(owner != Some(*signer), &["C21"], "not the owner");
            if let Some(i) = &inst {
                p.eq(q_instance(), &["C21"], "instance", QInstance::decode, QInstance { assistant: to.unwrap_or_default(), ..i.clone() });
            }
            p
        }
        Act::QRegChain { signer, chain, .. } => {
            let mut p = Plan::new("quoter_register_chain", c, vec![q_register_chain(*signer, *chain)], &[*signer]);
            p.reason(!authorised(signer), &["C21"], "not authorised");
            p.reason(chain_acc(*chain).is_some(), &["C21"], "already registered");
            p.eq(q_chain(*chain), &["C21", "C20"], "chain record", QChain::decode, QChain { max_dropoff: 0, base: u64::MAX, native: 0, gas: 0 });
            p
        }
        Act::QRegNtt { signer, program, index, gas, .. } => {
            let mut p = Plan::new("quoter_register_ntt", c, vec![q_register_ntt(*signer, *program, *index, *gas)], &[*signer]);
            p.reason(!authorised(signer), &["C21"], "not authorised");
            p.reason(s.l.data(&q_ntt(program)).is_some(), &["C21"], "already registered");
            p.eq(q_ntt(program), &["C21", "C20"], "ntt record", QNtt::decode, QNtt { index: *index, gas_cost: *gas });
            p
        }
        Act::QDeregNtt { signer, program, .. } => {
            let mut p = Plan::new("quoter_deregister_ntt", c, vec![q_deregister_ntt(*signer, *program)], &[*signer]);
            p.reason(!authorised(signer), &["C21"], "not authorised");
            p.reason(s.l.data(&q_ntt(program)).and_then(QNtt::decode).is_none(), &["C21"], "not registered");
            p.check(q_ntt(program), &["C21"], "ntt record removed", |a| {
                if a.is_none() {
                    Ok(())
                } else {
                    Err("still there".into())
                }
            });
            p
        }
        Act::QSolPrice { signer, price, .. } => {
            let mut p = Plan::new("quoter_sol_price", c, vec![q_update_sol_price(*signer, *price)], &[*signer]);
            p.reason(!authorised(signer), &["C21"], "not authorised");
            p.reason(*price == 0, &["C21", "C20"], "zero price");
            if let Some(i) = &inst {
                p.eq(q_instance(), &["C21", "C20"], "instance", QInstance::decode, QInstance { sol_price: *price, ..i.clone() });
            }
            p
        }
        Act::QChainPrices { signer, chain, native, gas, .. } => {
            let mut p = Plan::new("quoter_chain_prices", c, vec![q_update_chain_prices(*signer, *chain, *native, *gas)], &[*signer]);
            p.reason(!authorised(signer), &["C21"], "not authorised");
            match chain_acc(*chain) {
                None => p.reason(true, &[], "chain not registered"),
                Some(x) => p.eq(q_chain(*chain), &["C21", "C20"], "chain record", QChain::decode, QChain { native: *native, gas: *gas, ..x }),
            }
            p
        }
        Act::QChainParams { signer, chain, max, base, .. } => {
            let mut p = Plan::new("quoter_chain_params", c, vec![q_update_chain_params(*signer, *chain, *max, *base)], &[*signer]);
            p.reason(!authorised(signer), &["C21"], "not authorised");
            match chain_acc(*chain) {
                None => p.reason(true, &[], "chain not registered"),
                Some(x) => p.eq(q_chain(*chain), &["C21", "C20"], "chain record", QChain::decode, QChain { max_dropoff: *max, base: *base, ..x }),
            }
            p
        }
        Act::QRequest { payer, chain, item, dropoff, max_fee, .. } => {
            let mut p = Plan::new(
                "request_relay",
                c,
                vec![q_request_relay(*payer, *chain, *item, *dropoff, *max_fee)],
                &[*payer],
            );
            p.fail_tags = vec!["C20", "C24"];
            p.decide_tags = vec!["C20"];
            let it = s.item(item);
            let ntt = s.l.data(&q_ntt(&manager_id())).and_then(QNtt::decode);
            p.reason(inst.is_none(), &["C20"], "no instance");
            p.reason(it.is_none(), &["C20"], "not an outbox item");
            p.reason(ntt.is_none(), &["C20"], "ntt not registered");
            let ch = chain_acc(*chain);
            p.reason(ch.is_none(), &["C20"], "chain not registered");
            let (inst, it, ntt, ch) = match (inst, it, ntt, ch) {
                (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
                _ => return p,
            };
            p.reason(it.chain != *chain, &["C20"], "quote for another chain");
            p.reason(ntt.index >= 128 || it.released >> (ntt.index as u32).min(127) & 1 == 0, &["C20"], "not released yet");
            p.reason(inst.sol_price == 0, &["C20"], "no price");
            p.reason(ch.base == u64::MAX, &["C20"], "chain disabled");
            p.reason(*dropoff > ch.max_dropoff, &["C20"], "drop-off above the maximum");
            let k = q_request(item);
            p.reason(
                s.l.get(&k).map_or(false, |a| *a.owner() == quoter_id()),
                &["C20"],
                "already requested",
            );
            let rent = s.l.rent.minimum_balance(16);
            let fee = relay_fee(&inst, &ch, &ntt, *dropoff);
            p.reason(fee.is_none(), &["C20"], "fee overflow");
            let total = fee.unwrap_or(0).max(rent);
            p.reason(*max_fee < total, &["C20"], "fee above the user's maximum");
            let had = s.l.lamports(&k);
            let need = rent.saturating_sub(had).saturating_add(fee.unwrap_or(0).saturating_sub(rent));
            // the payer itself has to stay rent exempt
            p.reason(s.l.lamports(payer) < need.saturating_add(1_000_000), &[], "payer too poor");
            if !p.reasons.is_empty() {
                return p;
            }
            let d = *dropoff;
            let paid = s.l.lamports(payer) - need;
            p.check(*payer, &["C20"], "fee charged", move |a| {
                let x = a.map_or(0, |a| a.lamports());
                if x == paid {
                    Ok(())
                } else {
                    Err(format!("payer should have {paid} lamports left, has {x}"))
                }
            });
            p.check(k, &["C20"], "relay request", move |a| {
                let a = a.ok_or("no request")?;
                if *a.owner() != quoter_id() || decode_relay_request(a.data()) != Some(d) {
                    return Err("wrong contents".into());
                }
                if a.lamports() < total {
                    return Err(format!("holds {} instead of {total}", a.lamports()));
                }
                Ok(())
            });
            return p;
        }
        Act::QClose { signer, to, item, .. } => {
            let mut p = Plan::new("close_relay", c, vec![q_close_relay(*signer, *to, item)], &[*signer]);
            p.fail_tags = vec!["C20", "C24"];
            p.decide_tags = vec!["C20", "C21"];
            p.reason(!authorised(signer), &["C21", "C20"], "not authorised");
            p.reason(
                inst.as_ref().map(|i| i.fee_recipient) != Some(*to),
                &["C20"],
                "not the fee recipient",
            );
            let k = q_request(item);
            p.reason(
                s.l.owner(&k) != quoter_id(),
                &["C20"],
                "no such request",
            );
            let want = s.l.lamports(to) + s.l.lamports(&k);
            let same = *to == *signer;
            p.check(*to, &["C20"], "fee paid out", move |a| {
                let x = a.map_or(0, |a| a.lamports());
                if same || x == want {
                    Ok(())
                } else {
                    Err(format!("fee recipient should hold {want}, holds {x}"))
                }
            });
            p.check(k, &["C20"], "request closed", |a| {
                if a.is_none() {
                    Ok(())
                } else {
                    Err("still there".into())
                }
            });
            return p;
        }
        other => panic!("unplanned act {other:?}"),
    };
    p.reason(inst.is_none(), &["C21"], "not initialised");
    p.touch.extend(p.tx.signers.iter().copied());
    p.fail_tags = vec!["C21", "C24"];
    p.decide_tags.push("C21");
    p
}

// ----------------------------------------------------------------- governance

pub fn governance_emitter() -> [u8; 32] {
    let mut e = [0u8; 32];
    e[31] = 4;
    e
}

fn plan_gov(w: &World, c: usize, v: usize, pay: Pubkey, alt_replay: bool, cosign: bool) -> Plan {
    let s = &w.sols[c];
    let g = &w.gov_vaas[v];
    let inner = g.inner.as_ref().map(|a| a.plan(w));
    let mut remaining: Vec<AccountMeta> = vec![AccountMeta::new_readonly(g.ix.program_id, false)];
    let mut want_ix = g.ix.clone();
    let mut signers = vec![pay];
    for a in want_ix.accounts.iter_mut() {
        if a.pubkey == sentinel(b"owner") {
            a.pubkey = governance_pda();
        } else if a.pubkey == sentinel(b"payer") {
            a.pubkey = pay;
        } else {
            // Other parties may add their own signatures to the transaction.
            let mut m = a.clone();
            m.is_signer = cosign && a.is_signer && a.pubkey != governance_pda() && a.pubkey != pay;
            if m.is_signer && !signers.contains(&m.pubkey) {
                signers.push(m.pubkey);
            }
            remaining.push(m);
        }
    }
    let mut replay = replay_pda(g.p.emitter_chain, &g.p.emitter, g.p.sequence);
    if alt_replay {
        replay = replay_pda(g.p.emitter_chain, &g.p.emitter, g.p.sequence.wrapping_add(1));
    }
    let mut p = Plan::new(
        "governance",
        c,
        vec![governance(pay, g.key, g.ix.program_id, replay, remaining)],
        &signers,
    );
    p.fail_tags = vec!["C19", "C24"];
    p.decide_tags = vec!["C19"];
    p.reason(!g.posted.contains(&c), &["C19"], "no such VAA");
    p.reason(g.raw_owner != core_bridge_id() || !g.is_vaa, &["C19"], "not a posted VAA");
    if let Some(b) = g.bad {
        p.reason(true, &["C19"], b);
    }
    p.reason(alt_replay, &["C19"], "replay marker of another message");
    p.reason(
        s.l.owner(&replay) == governance_id() || g.executed.get(&c).copied().unwrap_or(0) > 0,
        &["C19"],
        "already executed",
    );
    // Signatures that governance cannot provide
    for a in &want_ix.accounts {
        p.reason(
            a.is_signer && a.pubkey != governance_pda() && !signers.contains(&a.pubkey),
            &["C19"],
            "needs a signature governance does not have",
        );
    }
    p.reason(g.inner.is_none() && g.ix.data.first().map_or(false, |x| *x != 1), &["C19"], "the governed program refuses");
    if let Some(i) = inner {
        p.may_refuse = i.may_refuse;
        p.reasons.extend(i.reasons);
        p.checks.extend(i.checks);
        p.touch.extend(i.touch);
    }
    p.touch.extend([pay, governance_pda()]);
    p.check(replay, &["C19"], "replay marker", |a| match a {
        Some(a) if *a.owner() == governance_id() => Ok(()),
        _ => Err("message can be executed again".into()),
    });
    p.cpi_check = Some((vec!["C19"], want_ix));
    p
}

// -------------------------------------------------------------- substitutions

/// What the slots of each instruction protect. A substituted account of the
/// listed kind must never be accepted there.
///
/// kinds: 0 a byte-for-byte copy owned by the attacker's program; 1 another
/// instance of the same type; 2 an uninitialised account; 3 drop the signature;
/// 4 leave the transfer hook's accounts out; 5 yet another genuine account
fn slot_tags(name: &str, slot: usize, burning: bool) -> (&'static str, &'static [P]) {
    match (name, slot) {
        ("transfer", 1) => ("config", &["C12", "C16", "C17", "C13"]),
        ("transfer", 2) => ("mint", &["C01", "C16"]),
        ("transfer", 3) => ("from", &["C10", "C01", "C16"]),
        ("transfer", 6) => ("outbox_rl", &["C05"]),
        ("transfer", 7) => ("custody", &["C01", "C16"]),
        ("transfer", 9) => ("inbox_rl", &["C07", "C06"]),
        ("transfer", 4) => ("token_program", &["C16", "C17"]),
        ("transfer", 10) => ("peer", &["C09", "C03", "C11", "C13"]),
        ("transfer", 11) => ("session", &["C10"]),
        ("transfer", 12) if burning => ("token_authority", &["C01", "C16"]),
        ("release_outbound", 1) => ("config", &["C12", "C09", "C13"]),
        ("release_outbound", 2) => ("outbox_item", &["C09", "C01", "C08"]),
        ("release_outbound", 3) => ("registered", &["C09", "C15"]),
        ("release_outbound", 4) => ("message", &["C09"]),
        ("release_outbound", 5) => ("emitter", &["C09", "C22"]),
        ("release_outbound", 6) => ("bridge", &["C09"]),
        ("release_outbound", 9) => ("core_bridge", &["C09"]),
        ("release_outbound", 13) => ("manager", &["C09"]),
        ("mark_released", 1) => ("config", &["C12", "C09", "C13"]),
        ("mark_released", 2) => ("outbox_item_m", &["C09", "C08"]),
        ("mark_released", 3) => ("registered", &["C09", "C15"]),
        ("receive_message", 1) => ("config", &["C12", "C03", "C13"]),
        ("receive_message", 2) => ("tpeer", &["C03", "C22"]),
        ("receive_message", 3) => ("vaa", &["C03"]),
        ("receive_message", 4) => ("tmsg", &["C03", "C02", "C04"]),
        ("redeem", 1) => ("config", &["C04", "C03", "C13"]),
        ("redeem", 2) => ("peer", &["C03"]),
        ("redeem", 3) => ("tmsg_r", &["C03", "C04"]),
        ("redeem", 4) => ("registered", &["C04", "C03", "C15"]),
        ("redeem", 5) => ("mint", &["C11", "C01", "C16"]),
        ("redeem", 6) => ("inbox_item", &["C02", "C04"]),
        ("redeem", 7) => ("inbox_rl", &["C06"]),
        ("redeem", 8) => ("outbox_rl", &["C07", "C05"]),
        ("release_inbound", 1) => ("config", &["C12", "C02", "C16", "C13"]),
        ("release_inbound", 2) => ("inbox_item", &["C02", "C03", "C01", "C04", "C08"]),
        ("release_inbound", 3) => ("recipient", &["C02", "C03"]),
        ("release_inbound", 4) => ("token_authority", &["C01", "C16"]),
        ("release_inbound", 5) => ("mint", &["C01", "C16"]),
        ("release_inbound", 6) => ("token_program", &["C16", "C17"]),
        ("release_inbound", 7) => ("custody", &["C01", "C16"]),
        ("set_peer", 1) => ("signer", &["C13", "C03"]),
        ("set_peer", 2) => ("config", &["C13", "C03"]),
        ("set_peer", 3) => ("peer", &["C13", "C03"]),
        ("set_peer", 4) => ("inbox_rl", &["C13", "C06"]),
        ("register_transceiver", 0) => ("config", &["C13", "C15"]),
        ("register_transceiver", 1) => ("signer", &["C13", "C15"]),
        ("register_transceiver", 4) => ("registered", &["C15", "C13"]),
        ("set_outbound_limit", 0) => ("config", &["C13", "C05"]),
        ("set_outbound_limit", 1) => ("signer", &["C13", "C05"]),
        ("set_outbound_limit", 2) => ("outbox_rl", &["C05", "C13"]),
        ("set_inbound_limit", 0) => ("config", &["C13", "C06"]),
        ("set_inbound_limit", 1) => ("signer", &["C13", "C06"]),
        ("set_inbound_limit", 2) => ("inbox_rl", &["C06", "C13"]),
        ("set_paused", 0) => ("signer", &["C13", "C12"]),
        ("set_paused", 1) => ("config", &["C13", "C12"]),
        ("transfer_ownership", 0) | ("transfer_ownership_one_step", 0) => ("config", &["C13", "C14"]),
        ("transfer_ownership", 1) | ("transfer_ownership_one_step", 1) => ("signer", &["C13", "C14"]),
        ("transfer_ownership", 3) => ("upgrade_lock", &["C14"]),
        ("transfer_ownership", 4) | ("transfer_ownership_one_step", 4) => ("program_data", &["C14"]),
        ("claim_ownership", 0) => ("config", &["C13", "C14"]),
        ("claim_ownership", 1) => ("upgrade_lock", &["C14"]),
        ("claim_ownership", 2) => ("signer", &["C13", "C14"]),
        ("claim_ownership", 3) => ("program_data", &["C14"]),
        ("initialize", 1) => ("signer", &["C17"]),
        ("initialize", 2) => ("program_data", &["C17"]),
        ("initialize_lut", 1) => ("lut_authority", &["C23"]),
        ("initialize_lut", 2) => ("lut_table", &["C23"]),
        ("initialize_lut", 6) => ("config", &["C23"]),
        ("initialize_lut", 7) => ("custody", &["C23"]),
        ("initialize_lut", 8) => ("token_program", &["C23"]),
        ("initialize_lut", 9) => ("mint", &["C23"]),
        ("initialize_lut", 10) => ("token_authority", &["C23"]),
        ("initialize_lut", 11) => ("outbox_rl", &["C23"]),
        ("initialize_lut", 12) => ("bridge", &["C23"]),
        ("initialize_lut", 15) => ("core_bridge", &["C23"]),
        ("set_wormhole_peer", 0) => ("config", &["C13", "C22"]),
        ("set_wormhole_peer", 1) => ("signer", &["C13", "C22"]),
        ("set_wormhole_peer", 3) => ("tpeer", &["C22", "C13", "C03"]),
        ("broadcast_id", 1) => ("config", &["C22"]),
        ("broadcast_id", 2) => ("mint", &["C22"]),
        ("broadcast_id", 4) => ("emitter", &["C22"]),
        ("broadcast_id", 8) => ("core_bridge", &["C22"]),
        ("broadcast_peer", 1) => ("config", &["C22"]),
        ("broadcast_peer", 2) => ("tpeer", &["C22"]),
        ("broadcast_peer", 4) => ("emitter", &["C22"]),
        ("broadcast_peer", 8) => ("core_bridge", &["C22"]),
        ("quoter_initialize", 0) => ("signer", &["C21"]),
        ("quoter_initialize", 3) => ("program_data", &["C21"]),
        ("quoter_set_fee_recipient", 0) | ("quoter_set_assistant", 0) => ("signer", &["C21"]),
        ("quoter_set_fee_recipient", 1) | ("quoter_set_assistant", 1) => ("instance", &["C21"]),
        ("quoter_register_chain", 0)
        | ("quoter_register_ntt", 0)
        | ("quoter_deregister_ntt", 0)
        | ("quoter_sol_price", 0)
        | ("quoter_chain_prices", 0)
        | ("quoter_chain_params", 0) => ("signer", &["C21"]),
        ("quoter_register_chain", 1)
        | ("quoter_register_ntt", 1)
        | ("quoter_deregister_ntt", 1)
        | ("quoter_sol_price", 1)
        | ("quoter_chain_prices", 1)
        | ("quoter_chain_params", 1) => ("instance", &["C21"]),
        ("quoter_chain_prices", 2) | ("quoter_chain_params", 2) => ("qchain_own", &["C21"]),
        ("quoter_deregister_ntt", 2) => ("qntt", &["C21"]),
        ("request_relay", 1) => ("instance", &["C20"]),
        ("request_relay", 2) => ("qchain", &["C20"]),
        ("request_relay", 3) => ("qntt", &["C20"]),
        ("request_relay", 4) => ("outbox_item_q", &["C20"]),
        ("request_relay", 5) => ("request", &["C20"]),
        ("close_relay", 0) => ("signer", &["C20", "C21"]),
        ("close_relay", 1) => ("instance", &["C20", "C21"]),
        ("close_relay", 2) => ("fee_recipient", &["C20"]),
        ("close_relay", 3) => ("request_own", &["C20"]),
        ("governance", 1) => ("governance_pda", &["C19"]),
        ("governance", 2) => ("vaa", &["C19"]),
        ("governance", 4) => ("replay", &["C19"]),
        _ => ("", &[]),
    }
}

pub fn fake_key(slot: usize, kind: u8) -> Pubkey {
    named("fake", slot as u64 * 16 + kind as u64)
}

/// Which substitute, if any, this (role, kind) stands for.
fn substitute(w: &World, c: usize, role: &str, kind: u8, orig: &Pubkey, slot: usize) -> Option<Pubkey> {
    let s = &w.sols[c];
    if kind == 0 {
        // clone owned by an unrelated program
        return match role {
            "signer" | "core_bridge" | "manager" | "token_program" => None,
            _ => Some(fake_key(slot, 0)),
        };
    }
    if kind == 2 {
        return match role {
            "signer" => None,
            "core_bridge" | "manager" | "token_program" => Some(probe2_id()),
            _ => Some(fake_key(slot, 2)),
        };
    }
    if kind == 5 {
        return match role {
            "from" => Some(ata(&attacker(), &s.other_mint, &s.tok.program)),
            "custody" => Some(s.tok.ata(&user(1))),
            _ => None,
        };
    }
    if kind == 7 {
        // something else that the right program owns
        // (for the program data: that of another program, in the same hands)
        return ["tmsg_r", "program_data"].contains(&role).then(|| fake_key(slot, 7));
    }
    if kind == 6 {
        return match role {
            "custody" => Some(aux_vault()),
            "from" => Some(if *orig == s.tok.custody() { aux_vault() } else { s.tok.custody() }),
            "recipient" => Some(aux_vault()),
            "mint" => Some(w.sols[(c + 1) % w.sols.len()].tok.mint).filter(|k| k != orig),
            _ => None,
        };
    }
    // kind 1: another genuine account of the same type
    let differs = |k: Pubkey| (k != *orig).then_some(k);
    let chains: Vec<u16> = w.all_chains().iter().map(|x| x.0).collect();
    match role {
        "inbox_rl" => chains
            .iter()
            .map(|x| inbox_rl(*x))
            .find(|k| k != orig && s.l.get(k).is_some()),
        "peer" => chains
            .iter()
            .map(|x| peer(*x))
            .find(|k| k != orig && s.l.get(k).is_some()),
        "tpeer" => chains
            .iter()
            .flat_map(|x| all_transceivers().into_iter().map(move |t| transceiver_peer(&t, *x)))
            .find(|k| k != orig && s.l.get(k).is_some()),
        "registered" => all_transceivers()
            .iter()
            .map(registered_transceiver)
            .find(|k| k != orig && s.l.get(k).is_some()),
        "outbox_rl" => chains
            .iter()
            .map(|x| inbox_rl(*x))
            .find(|k| s.l.get(k).is_some()),
        "mint" => differs(s.other_mint),
        "custody" => differs(s.tok.ata(&attacker())),
        // somebody else's tokens
        "from" => (0..3)
            .map(|i| s.tok.ata(&user(i)))
            .find(|k| k != orig && s.token(k).is_some()),
        "outbox_item" => s.outbox.iter().copied().find(|k| k != orig && s.item(k).is_some()),
        "tmsg_r" => {
            let of = |k: &Pubkey| s.l.data(k).and_then(Msg::decode_validated);
            let (o, m) = (s.l.owner(orig), of(orig));
            s.tmsgs
                .iter()
                .map(|x| x.1)
                .find(|k| k != orig && (s.l.owner(k) != o || of(k) != m))
        }
        "qntt" => [manager_id(), transceiver_id(), probe_id(), probe2_id()]
            .iter()
            .map(q_ntt)
            .find(|k| k != orig && s.l.get(k).is_some()),
        "governance_pda" => differs(attacker()),
        "recipient" => differs(s.tok.ata(&attacker())),
        // (another transfer to the same recipient would be fine to release)
        "inbox_item" => {
            let to = s.inbox_item(orig).map(|i| i.recipient);
            s.inbox
                .iter()
                .copied()
                .find(|k| k != orig && s.inbox_item(k).map(|i| i.recipient) != to)
        }
        "token_authority" | "session" => differs(attacker()),
        "upgrade_lock" | "lut_authority" => differs(attacker()),
        "program_data" => differs(program_data(&if *orig == program_data(&manager_id()) {
            quoter_id()
        } else {
            manager_id()
        })),
        "vaa" => s.core_msgs.first().copied(),
        "emitter" => differs(
            all_transceivers()
                .iter()
                .map(emitter)
                .find(|k| k != orig)
                .unwrap(),
        ),
        "qchain" => chains
            .iter()
            .map(|x| q_chain(*x))
            .find(|k| k != orig && s.l.get(k).is_some()),
        "fee_recipient" => differs(attacker()),
        "signer" => differs(attacker()),
        "core_bridge" => Some(probe_id()),
        "manager" => Some(probe2_id()),
        "token_program" => differs(if *orig == spl_token::id() {
            spl_token_2022::id()
        } else {
            spl_token::id()
        }),
        "replay" | "request" | "message" => differs(fake_key(slot, 1)),
        _ => None,
    }
}

/// Every (slot, kind) that makes sense for this transaction, those touching
/// `focus` only if asked for.
pub fn sub_choices(w: &World, p: &Plan, focus: Option<P>) -> Vec<(usize, u8)> {
    let s = &w.sols[p.c];
    let accounts = &p.tx.ixs[p.main].accounts;
    let mut v = vec![];
    for (slot, m) in accounts.iter().enumerate() {
        let (role, tags) = slot_tags(p.name, slot, s.burning);
        if role.is_empty() || focus.map_or(false, |f| !tags.contains(&f)) {
            continue;
        }
        for kind in [0, 1, 2, 5, 6, 7] {
            if substitute(w, p.c, role, kind, &m.pubkey, slot).is_some() {
                v.push((slot, kind));
            }
        }
        if role == "signer" {
            v.push((slot, 3));
        }
    }
    if hook_leg(s, p) && focus.map_or(true, |f| f == "C18") {
        v.push((0, 4));
    }
    for map in 0..MAPS {
        let tags = swap_tags(p.name, map);
        if tags.is_empty() || focus.map_or(false, |f| !tags.contains(&f)) {
            continue;
        }
        let n = swaps(w, p, map).len();
        for mask in 1..1usize << n.min(4) {
            v.push((mask, 16 + map));
        }
    }
    v
}

const MAPS: u8 = 3;

/// Several accounts replaced together, so that they agree with one another but
/// not with the deployment: 0 another token (that the program could mint), 1
/// another authority with its own vault, 2 another chain.
fn swap_tags(name: &str, map: u8) -> &'static [P] {
    match (name, map) {
        ("transfer", 0) | ("transfer", 1) => &["C01", "C16"],
        ("transfer", 2) => &["C06", "C07", "C09", "C03"],
        ("release_inbound", 0) => &["C16", "C02", "C01", "C24"],
        ("release_inbound", 1) => &["C16", "C01"],
        ("redeem", 0) => &["C11", "C16"],
        ("redeem", 2) => &["C03", "C06"],
        ("set_peer", 2) => &["C13", "C03", "C06"],
        ("initialize", 1) => &["C17", "C16"],
        ("initialize_lut", 0) | ("initialize_lut", 1) => &["C23"],
        ("broadcast_id", 0) => &["C22"],
        _ => &[],
    }
}

pub fn false_mint() -> Pubkey {
    named("false-mint", 0)
}

/// (account slot, what takes its place)
pub fn swaps(w: &World, p: &Plan, map: u8) -> Vec<(usize, Pubkey)> {
    let s = &w.sols[p.c];
    let accounts = &p.tx.ixs[p.main].accounts;
    let chains: Vec<u16> = w.all_chains().iter().map(|x| x.0).collect();
    let mut v = vec![];
    for (slot, m) in accounts.iter().enumerate() {
        let k = m.pubkey;
        let to = match map {
            0 if k == s.tok.mint => Some(false_mint()),
            0 => s
                .token(&k)
                .map(|t| ata(&t.owner, &false_mint(), &s.tok.program)),
            1 if k == token_authority() => Some(attacker()),
            1 if k == s.tok.custody() => Some(s.tok.ata(&attacker())),
            2 => chains.iter().find_map(|x| {
                let there = chains.iter().filter(|y| *y != x);
                let mut of = |f: &dyn Fn(u16) -> Pubkey| {
                    (k == f(*x))
                        .then(|| there.clone().map(|y| f(*y)).find(|k| s.l.get(k).is_some()))
                        .flatten()
                };
                of(&peer).or_else(|| of(&inbox_rl))
            }),
            _ => None,
        };
        if let Some(to) = to.filter(|x| *x != k) {
            v.push((slot, to));
        }
    }
    v
}

/// Bring the other token into being.
pub fn make_swaps(w: &mut World, p: &Plan, map: u8) {
    if map != 0 {
        return;
    }
    let v = swaps(w, p, map);
    let s = &mut w.sols[p.c];
    let program = s.tok.program;
    let a = s.l.get(&s.other_mint).cloned().unwrap();
    let mut d = a.data().to_vec();
    d[0] = 1;
    d[4..36].copy_from_slice(token_authority().as_ref());
    s.l.put(false_mint(), a.lamports(), d, program);
    let model = s.l.get(&ata(&attacker(), &s.other_mint, &program)).cloned().unwrap();
    for (slot, to) in v {
        let k = p.tx.ixs[p.main].accounts[slot].pubkey;
        if let Some(t) = s.token(&k) {
            let mut d = model.data().to_vec();
            d[..32].copy_from_slice(false_mint().as_ref());
            d[32..64].copy_from_slice(t.owner.as_ref());
            d[64..72].copy_from_slice(&(1u64 << 60).to_le_bytes());
            if p.name == "transfer" {
                // its holder let the session spend it
                d[72] = 1;
                d[76..108].copy_from_slice(p.tx.ixs[p.main].accounts[11].pubkey.as_ref());
                d[121..129].copy_from_slice(&(1u64 << 60).to_le_bytes());
            }
            s.l.put(to, model.lamports(), d, program);
        }
    }
}

/// Does this transaction move tokens that have a transfer hook?
fn hook_leg(s: &Sol, p: &Plan) -> bool {
    let a = &p.tx.ixs[p.main].accounts;
    s.tok.hook
        && !p.noop
        && match p.name {
            "transfer" => true,
            // (a transfer to itself does not run the hook)
            "release_inbound" => a[3].pubkey != s.tok.custody(),
            _ => false,
        }
}

fn plan_sub(w: &World, inner: &Act, slot: usize, kind: u8) -> Plan {
    let mut p = inner.plan(w);
    let c = p.c;
    let main = p.main;
    if p.noop {
        // nothing would happen, with whatever accounts
        p.tx.ixs.clear();
        return p;
    }
    if kind == 4 {
        if hook_leg(&w.sols[c], &p) {
            let a = &mut p.tx.ixs[main].accounts;
            let n = a.len() - w.sols[c].tok.hook_accounts(&Pubkey::default()).len();
            a.truncate(n);
            p.reason(true, &["C18"], "transfer hook accounts left out");
        } else {
            p.tx.ixs.clear();
        }
        return p;
    }
    if kind >= 16 {
        let v = swaps(w, &p, kind - 16);
        let tags = swap_tags(p.name, kind - 16);
        let (mask, mut n) = (slot, 0);
        for (i, (slot, to)) in v.into_iter().enumerate() {
            if mask >> i & 1 == 1 {
                p.tx.ixs[main].accounts[slot].pubkey = to;
                n += 1;
            }
        }
        if n == 0 || tags.is_empty() {
            p.tx.ixs.clear();
        } else {
            p.reason(true, tags, &format!("{n} accounts of another deployment ({})", kind - 16));
        }
        return p;
    }
    let slot = slot % p.tx.ixs[main].accounts.len();
    let (role, tags) = slot_tags(p.name, slot, w.sols[c].burning);
    if role.is_empty() {
        p.tx.ixs.clear();
        return p;
    }
    let orig = p.tx.ixs[main].accounts[slot].pubkey;
    if kind == 3 {
        if role != "signer" {
            p.tx.ixs.clear();
            return p;
        }
        for i in p.tx.ixs.iter_mut() {
            for m in i.accounts.iter_mut() {
                if m.pubkey == orig {
                    m.is_signer = false;
                }
            }
        }
        p.tx.signers.remove(&orig);
        p.reason(true, tags, &format!("{role} did not sign"));
        return p;
    }
    match substitute(w, c, role, kind, &orig, slot) {
        None => p.tx.ixs.clear(),
        Some(k) => {
            p.tx.ixs[main].accounts[slot].pubkey = k;
            if role == "signer" {
                p.tx.signers.insert(k);
            }
            p.reason(true, tags, &format!("{role} substituted ({kind})"));
        }
    }
    p
}
