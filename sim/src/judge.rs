//! Executes one act on the real code and compares what happened with what the
//! reference model said, then checks the state and history invariants.

use solana_sdk::{
    account::{Account, ReadableAccount},
    pubkey::Pubkey,
    system_program,
};

use crate::{acts::*, ix, ix::*, svm::*, world::*};

/// Which properties an account matters to, for unexplained changes.
fn class_tags(s: &Sol, k: &Pubkey, a: &Account) -> (&'static str, Vec<P>) {
    if *k == ix::config() {
        return ("configuration", vec!["C12", "C13", "C14", "C15", "C17"]);
    }
    if *k == outbox_rl() {
        return ("outbound limit", vec!["C05", "C07", "C13"]);
    }
    if *k == s.tok.mint {
        return ("mint", vec!["C01"]);
    }
    if *k == program_data(&manager_id()) {
        return ("upgrade authority", vec!["C14"]);
    }
    if *k == lut_pda() {
        return ("lookup table record", vec!["C23"]);
    }
    if a.owner == s.tok.program {
        return ("token account", vec!["C01", "C02", "C10"]);
    }
    if a.owner == manager_id() {
        let d = &a.data;
        if OutboxItem::decode(d).is_some() {
            return ("outbox item", vec!["C09", "C08"]);
        }
        if InboxItem::decode(d).is_some() {
            return ("inbox item", vec!["C02", "C04", "C08"]);
        }
        if RateLimit::decode_inbox(d).is_some() {
            return ("inbound limit", vec!["C06", "C07", "C13"]);
        }
        if Peer::decode(d).is_some() {
            return ("peer", vec!["C03", "C13"]);
        }
        if Registered::decode(d).is_some() {
            return ("registration", vec!["C15", "C13", "C04"]);
        }
    }
    if a.owner == manager_id() || a.owner == transceiver_id() {
        if decode_transceiver_peer(&a.data).is_some() {
            return ("transceiver peer", vec!["C22", "C03", "C13"]);
        }
        if Msg::decode_validated(&a.data).is_some() {
            return ("validated message", vec!["C03", "C02"]);
        }
        return ("manager account", vec!["C13"]);
    }
    if a.owner == quoter_id() {
        return ("quoter account", vec!["C20", "C21"]);
    }
    if a.owner == core_bridge_id() {
        return ("core bridge account", vec!["C09", "C22"]);
    }
    if a.owner == governance_id() {
        return ("governance account", vec!["C19"]);
    }
    if a.owner == solana_sdk::address_lookup_table::program::id() {
        return ("lookup table", vec!["C23"]);
    }
    ("other account", vec![])
}

/// What a failure the model cannot explain says about itself.
fn blame(logs: &[String]) -> Vec<P> {
    const BY_ACCOUNT: [(&str, &[P]); 26] = [
        ("session_authority", &["C10"]),
        ("inbox_item", &["C02", "C04"]),
        ("inbox_rate_limit", &["C06", "C07"]),
        ("outbox_rate_limit", &["C05", "C07"]),
        ("peer", &["C03"]),
        ("transceiver_message", &["C03", "C04"]),
        ("transceiver", &["C15", "C04"]),
        ("registered_transceiver", &["C15", "C04"]),
        ("vaa", &["C03", "C19"]),
        ("replay", &["C19"]),
        ("recipient", &["C02"]),
        ("mint", &["C16", "C17"]),
        ("custody", &["C16", "C01"]),
        ("token_authority", &["C16"]),
        ("from", &["C10"]),
        ("program_data", &["C14", "C17"]),
        ("upgrade_lock", &["C14"]),
        ("new_owner", &["C14"]),
        ("owner", &["C13"]),
        ("authority", &["C21"]),
        ("wormhole_message", &["C09", "C22"]),
        ("outbox_item", &["C09"]),
        ("lut_address", &["C23"]),
        ("lut", &["C23"]),
        ("relay_request", &["C20"]),
        ("fee_recipient", &["C20", "C21"]),
    ];
    const BY_CODE: [(&str, &[P]); 14] = [
        ("TransferExceedsRateLimit", &["C05", "C08"]),
        ("CantReleaseYet", &["C08"]),
        ("TransferNotApproved", &["C04"]),
        ("TransferAlreadyRedeemed", &["C02"]),
        ("TransferCannotBeRedeemed", &["C02"]),
        ("Paused", &["C12"]),
        ("InvalidOwner", &["C13"]),
        ("InvalidMode", &["C16"]),
        ("MessageAlreadySent", &["C09"]),
        ("DisabledTransceiver", &["C04"]),
        ("InvalidPendingOwner", &["C14"]),
        ("Overflow", &["C11"]),
        ("overflow", &["C11", "C05", "C06", "C07"]),
        ("BadAmountAfterTransfer", &["C18"]),
    ];
    let mut v = vec![];
    for l in logs {
        if let Some(i) = l.find("caused by account: ") {
            let rest = &l[i + 19..];
            let name: String = rest
                .chars()
                .take_while(|c| c.is_alphanumeric() || *c == '_')
                .collect();
            for (n, t) in BY_ACCOUNT {
                if n == name {
                    v.extend_from_slice(t);
                }
            }
        }
        for (n, t) in BY_CODE {
            if l.contains(n) {
                v.extend_from_slice(t);
            }
        }
    }
    v
}

fn short(k: &Pubkey) -> String {
    k.to_string()[..6].to_string()
}

/// Run one act. Returns None when it was not applicable, otherwise whether the
/// transaction succeeded.
pub fn perform(w: &mut World, act: &Act, fault: Option<u64>) -> Option<bool> {
    let mut plan = act.plan(w);
    if plan.tx.ixs.is_empty() {
        return None;
    }
    let c = plan.c;
    if let Act::Sub { inner, slot, kind } = act {
        // Only meaningful when everything else about the transaction is right.
        let ip = inner.plan(w);
        if !ip.reasons.is_empty() {
            return perform(w, inner, fault);
        }
        if *kind == 0 {
            let n = ip.tx.ixs[ip.main].accounts.len();
            let orig = ip.tx.ixs[ip.main].accounts[*slot % n].pubkey;
            let l = &mut w.sols[c].l;
            let (lam, data) = match l.get(&orig) {
                Some(a) => (a.lamports(), a.data().to_vec()),
                None => (l.rent.minimum_balance(8), vec![0; 8]),
            };
            l.put(fake_key(*slot % n, 0), lam.max(1_000_000), data, named("evil-program", 0));
        }
        if *kind == 7 {
            let n = ip.tx.ixs[ip.main].accounts.len();
            let orig = ip.tx.ixs[ip.main].accounts[*slot % n].pubkey;
            let l = &mut w.sols[c].l;
            if let Some(a) = l.get(&orig).cloned() {
                let mut d = a.data().to_vec();
                if d.len() > 8 && *a.owner() != solana_sdk::bpf_loader_upgradeable::id() {
                    d[w.stats.txs as usize % 8] ^= 1 << (w.stats.txs / 8 % 8);
                }
                l.put(fake_key(*slot % n, 7), a.lamports(), d, *a.owner());
            }
        }
        if *kind >= 16 {
            make_swaps(w, &ip, *kind - 16);
            w.stats.fault("consistent set of foreign accounts");
        }
        w.stats.fault("account substitution");
    }
    plan.tx.cpi_fault = fault;
    let r = w.sols[c].l.exec(&plan.tx);
    w.stats.txs += 1;
    if r.fault_fired {
        w.stats.fault("transaction killed at a cross-program call");
    }
    let name = plan.name;
    let e = w.stats.acts.entry(name.to_string()).or_default();
    e[if r.ok { if plan.noop { 2 } else { 0 } } else { 1 }] += 1;
    for reason in &plan.reasons {
        *w.stats.rejected.entry(reason.why.clone()).or_default() += 1;
    }
    w.stats.mix(name);
    w.stats.mix(if r.ok { "+" } else { "-" });
    for reason in &plan.reasons {
        w.stats.mix(&reason.why);
    }
    if let Some(log) = &mut w.stats.log {
        let why: Vec<&str> = plan.reasons.iter().map(|r| r.why.as_str()).collect();
        log.push(format!(
            "  ledger {c} t={} {} -> {}{}{}{}",
            w.sols[c].l.now(),
            brief(act),
            if r.ok { "ok" } else { "rejected" },
            if r.ok && plan.noop { " (no effect)" } else { "" },
            if r.fault_fired { " [killed mid-flight]" } else { "" },
            if why.is_empty() { String::new() } else { format!(" (must reject: {})", why.join("; ")) },
        ));
    }
    let hit = |w: &mut World, tags: &[P]| {
        for t in tags {
            *w.stats.hits.entry(t).or_default() += 1;
        }
    };
    let dt = plan.decide_tags.clone();
    hit(w, &dt);
    for reason in &plan.reasons {
        hit(w, reason.tags);
    }

    // An aborted transaction must leave nothing behind.
    if r.ok && r.fault_fired {
        w.violate(&plan.fail_tags, format!("{name}: succeeded although a cross-program call died"));
    }
    if r.ok && !plan.reasons.is_empty() {
        let tags: Vec<P> = plan.reasons.iter().flat_map(|r| r.tags.iter().copied()).collect();
        if !tags.is_empty() {
            let why: Vec<&str> = plan.reasons.iter().map(|r| r.why.as_str()).collect();
            w.violate(&tags, format!("{name} accepted although: {}", why.join("; ")));
        }
    } else if !r.ok && plan.reasons.is_empty() && !r.fault_fired && !plan.may_refuse {
        if !plan.fail_tags.is_empty() {
            let l = &mut w.sols[c].l;
            l.want_logs = true;
            let r2 = l.exec(&plan.tx);
            l.want_logs = false;
            let mut tags = plan.fail_tags.clone();
            tags.extend(blame(&r2.logs));
            let tail: Vec<String> = r2.logs.iter().rev().take(6).rev().cloned().collect();
            w.violate(
                &tags,
                format!("{name} rejected although valid: {} [{}]", r.err, tail.join(" | ")),
            );
        }
    } else if r.ok {
        for ch in &plan.checks {
            hit(w, &ch.tags);
            let res = (ch.f)(w.sols[c].l.get(&ch.key));
            if let Err(e) = res {
                w.violate(&ch.tags, format!("{name}: {}: {e}", ch.what));
            }
        }
        // Nothing else may have changed.
        for (k, before, after) in &r.diff {
            if plan.touch.contains(k) || plan.checks.iter().any(|c| c.key == *k) {
                continue;
            }
            let a = match after.as_ref().or(before.as_ref()) {
                Some(a) => a,
                None => continue,
            };
            if a.owner == system_program::id() {
                continue;
            }
            let (what, tags) = class_tags(&w.sols[c], k, a);
            let tags2 = match before {
                Some(b) => class_tags(&w.sols[c], k, b).1,
                None => vec![],
            };
            let tags: Vec<P> = tags.into_iter().chain(tags2).collect();
            if !tags.is_empty() {
                w.violate(&tags, format!("{name}: unexpected change of {what} {}", short(k)));
            }
        }
        if let Some((tags, want)) = &plan.cpi_check {
            hit(w, tags);
            let calls: Vec<&CpiRecord> = r
                .cpis
                .iter()
                .filter(|x| x.caller == governance_id() && x.program != system_program::id())
                .collect();
            let same = calls.len() == 1
                && calls[0].program == want.program_id
                && calls[0].data == want.data
                && calls[0].accounts.len() == want.accounts.len()
                && calls[0]
                    .accounts
                    .iter()
                    .zip(&want.accounts)
                    .all(|(a, b)| (a.0, a.1, a.2) == (b.pubkey, b.is_signer, b.is_writable));
            if !same {
                w.violate(
                    tags,
                    format!("{name}: executed {:?} instead of the signed instruction", calls.len()),
                );
            }
        }
    }
    if r.ok {
        after(w, c, act, &plan, &r);
    }
    invariants(w, c);
    Some(r.ok)
}

/// A readable one-liner for traces.
pub fn brief(act: &Act) -> String {
    let mut s = format!("{act:?}");
    // byte arrays are noise
    while let (Some(i), Some(j)) = (s.find(": ["), s.find(']')) {
        if j < i {
            break;
        }
        let inner = &s[i + 3..j];
        let b: Vec<u8> = inner.split(", ").filter_map(|x| x.parse().ok()).collect();
        let h: String = b.iter().take(4).map(|x| format!("{x:02x}")).collect();
        s.replace_range(i..=j, &format!(": 0x{h}.."));
    }
    s
}

fn after(w: &mut World, c: usize, act: &Act, plan: &Plan, r: &TxResult) {
    // What appeared on the ledger, whatever the act was meant to do.
    for (k, before, a) in &r.diff {
        let a = match a {
            Some(a) => a,
            None => continue,
        };
        let was = |o: Pubkey| before.as_ref().map_or(false, |b| b.owner == o);
        if a.owner == core_bridge_id() && !was(core_bridge_id()) && a.data.len() > 3 && &a.data[..3] == b"msg" {
            if let Some(p) = Posted::decode(&a.data) {
                w.sols[c].core_msgs.push(*k);
                message_history(w, c, &p);
                // The guardians see a message as coming from the chain they watch.
                let mut p = p;
                p.emitter_chain = w.sols[c].chain;
                w.unsigned.push((c, *k, p));
            }
        }
        if all_transceivers().contains(&a.owner) && !was(a.owner) {
            if Msg::decode_validated(&a.data).is_some() {
                w.sols[c].tmsgs.push((a.owner, *k));
            } else if InboxItem::decode(&a.data).is_some() {
                w.sols[c].inbox.push(*k);
            }
        }
    }
    match act {
        Act::Sub { inner, .. } => return after_act(w, c, inner, plan),
        _ => after_act(w, c, act, plan),
    }
}

fn after_act(w: &mut World, c: usize, act: &Act, plan: &Plan) {
    match act {
        Act::Transfer(t) => {
            let s = &w.sols[c];
            if let Some(it) = s.item(&t.item) {
                let msg = message_of(s, &t.item, &it);
                let sent = Sent {
                    src_chain: s.chain,
                    norm: it.amount as u128 * pow10(18 - it.decimals.min(18)),
                    amount: t.a.amount,
                    at: s.now(),
                    msg,
                };
                w.sent.push(sent);
                w.sols[c].outbox.push(t.item);
            }
            if t.approve == 1 {
                w.standing.retain(|x| !(x.0 == c && x.1 == t.owner));
            }
        }
        Act::Approve { c, owner, a } => {
            w.standing.retain(|x| !(x.0 == *c && x.1 == *owner));
            w.standing.push((*c, *owner, a.clone()));
        }
        Act::ReleaseIn { item, .. } if !plan.noop => {
            let s = &w.sols[c];
            let it = match s.inbox_item(item) {
                Some(i) => i,
                None => return,
            };
            let chain = s.chain;
            let custody = s.tok.ata(&it.recipient) == s.tok.custody();
            let src = w
                .sent
                .iter()
                .find(|x| inbox_item(x.src_chain, &x.msg.manager_msg()) == *item)
                .map(|x| (x.src_chain, x.msg.id, x.msg.to_chain, x.msg.to));
            match src {
                None => w.violate(
                    &["C01", "C03", "C04"],
                    "tokens released for a transfer nobody sent".into(),
                ),
                Some((src, id, to_chain, to)) => {
                    if to_chain != chain || to != it.recipient.to_bytes() {
                        w.violate(
                            &["C02", "C03"],
                            "tokens released on the wrong chain or to the wrong recipient".into(),
                        );
                    }
                    let n = w.credited.entry((chain, src, id)).or_default();
                    *n += 1;
                    if *n > 1 {
                        let n = *n;
                        w.violate(&["C01", "C02"], format!("transfer released {n} times"));
                    }
                    w.stats.delivered += 1;
                }
            }
            for t in ["C01", "C02", "C03", "C04"] {
                *w.stats.hits.entry(t).or_default() += 1;
            }
            if custody {
                w.sols[c].donated += it.amount;
            }
        }
        Act::TokTransfer { to, amount, .. } => {
            let s = &mut w.sols[c];
            if s.tok.ata(to) == s.tok.custody() {
                s.donated += amount - fee_of(s, *amount);
            }
        }
        Act::QRequest { item, .. } => w.sols[c].relay_items.push(*item),
        Act::QClose { item, .. } => w.sols[c].relay_items.retain(|x| x != item),
        Act::Gov { vaa, .. } => {
            let n = w.gov_vaas[*vaa].executed.entry(c).or_default();
            *n += 1;
            if *n > 1 {
                w.violate(&["C19"], "governance message executed twice".into());
            }
        }
        Act::Claim { .. } => w.sols[c].auth_moved = false,
        Act::InitLut { slot, .. } => {
            let k = lut_address(*slot);
            w.sols[c].luts.push((*slot, k));
        }
        _ => {}
    }
}

/// Every published transfer must be one the sender made, published once per
/// transceiver.
fn message_history(w: &mut World, c: usize, p: &Posted) {
    let t = match all_transceivers().into_iter().find(|t| emitter(t).to_bytes() == p.emitter) {
        Some(t) => t,
        None => return,
    };
    *w.stats.hits.entry("C09").or_default() += 1;
    if let Some(m) = Msg::parse(&p.payload) {
        let chain = w.sols[c].chain;
        let sent = w.sent.iter().find(|s| s.src_chain == chain && s.msg.id == m.id);
        let ok = sent.map(|s| s.msg == m);
        match ok {
            None => w.violate(&["C09", "C01"], "message published for no transfer".into()),
            Some(false) => w.violate(
                &["C09", "C11", "C01"],
                format!("published message differs from the transfer: {m:?}"),
            ),
            Some(true) => {}
        }
        let n = w.published.entry((c, t, m.id)).or_default();
        *n += 1;
        if *n > 1 {
            w.violate(&["C09", "C01"], "transfer published twice by one transceiver".into());
        }
    }
}

fn invariants(w: &mut World, c: usize) {
    let mut bad: Vec<(&'static [P], String)> = vec![];
    {
        let s = &w.sols[c];
        if let Some(cfg) = s.config() {
            let auth = s
                .l
                .data(&program_data(&manager_id()))
                .and_then(upgrade_authority)
                .flatten();
            let lock = auth == Some(upgrade_lock());
            let fine = match cfg.pending_owner {
                None => auth == Some(cfg.owner),
                Some(_) => lock,
            };
            if !fine && !s.auth_moved {
                bad.push((
                    &["C14"],
                    format!(
                        "upgrade authority {auth:?} out of step with owner {} / pending {:?}",
                        cfg.owner, cfg.pending_owner
                    ),
                ));
            }
            if cfg.mint != s.tok.mint
                || cfg.chain_id != s.chain
                || cfg.burning != s.burning
                || cfg.token_program != s.tok.program
                || cfg.custody != s.tok.custody()
            {
                bad.push((&["C17"], "deployment parameters changed".into()));
            }
            if cfg.next_id < 128 && cfg.enabled >> cfg.next_id != 0 {
                bad.push((&["C15", "C04"], "transceiver enabled that was never registered".into()));
            }
        }
        if let Some(r) = s.orl() {
            if r.cap > r.limit {
                bad.push((&["C05", "C07"], format!("outbound capacity {} above limit {}", r.cap, r.limit)));
            }
        }
        for ch in w.all_chains() {
            if let Some(r) = s.irl(ch.0) {
                if r.cap > r.limit {
                    bad.push((
                        &["C06", "C07"],
                        format!("inbound capacity {} above limit {}", r.cap, r.limit),
                    ));
                }
            }
        }
    }
    for (t, m) in bad {
        w.violate(t, m);
    }
    // Transceiver ids never shared.
    if w.check_ids {
        w.check_ids = false;
        let s = &w.sols[c];
        let mut ids: Vec<u8> = s
            .l
            .accounts
            .values()
            .filter(|a| *a.owner() == manager_id())
            .filter_map(|a| Registered::decode(a.data()))
            .map(|r| r.id)
            .collect();
        let n = ids.len();
        ids.sort();
        ids.dedup();
        if ids.len() != n {
            w.violate(&["C15", "C04"], "two transceivers share an id".into());
        }
    }
    if w.track_total {
        *w.stats.hits.entry("C01").or_default() += 1;
        let t = w.total();
        if t != w.total0 {
            let d = t - w.total0;
            w.total0 = t;
            w.violate(&["C01"], format!("total value changed by {d} (18-decimal units)"));
        }
    }
    // Abstract state, for coverage accounting only.
    let s = &w.sols[c];
    let mut h: u64 = 0xcbf29ce484222325 ^ c as u64;
    let mut mix = |x: u64| h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
    if let Some(cfg) = s.config() {
        mix(cfg.paused as u64);
        mix(cfg.pending_owner.is_some() as u64);
        mix(cfg.enabled as u64);
        mix(cfg.threshold as u64);
    }
    if let Some(r) = s.orl() {
        let cap = r.capacity(s.now());
        mix(if r.limit == 0 { 9 } else { (cap as u128 * 8 / r.limit.max(1) as u128) as u64 });
    }
    for k in s.inbox.iter().rev().take(6) {
        if let Some(i) = s.inbox_item(k) {
            mix(i.votes as u64);
            mix(match i.status {
                Status::NotApproved => 1,
                Status::After(t) => 2 + (t > s.now()) as u64,
                Status::Released => 4,
            });
        }
    }
    for k in s.outbox.iter().rev().take(6) {
        if let Some(i) = s.item(k) {
            mix(i.released as u64);
            mix((i.release_ts > s.now()) as u64);
        }
    }
    w.stats.states.insert(h);
}
