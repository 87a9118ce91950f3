//! C08: a history with messages inserted that must not matter, against the same history without
//! them. Both are runs of the real node; everything it does is compared, to the millisecond.
use crate::det;
use crate::puppet::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::world::*;
use overlord::types::*;
use std::collections::HashSet;

type Obs = Vec<(u64, String)>;

fn norm_from(f: &UpdateFrom) -> String {
    match f {
        UpdateFrom::ChokeQC(c) => {
            let mut v = c.voters.clone();
            v.sort();
            format!("ChokeQC {} {} {:?} {:?}", c.height, c.round, v, c.signature)
        }
        o => format!("{:?}", o),
    }
}

fn obs_of(e: &Ev) -> Option<String> {
    Some(match e {
        Ev::Out { to, msg: OverlordMsg::SignedChoke(c) } => {
            format!("-> {:?} choke {} {} {:?} {:?} {}", to, c.choke.height, c.choke.round, c.address, c.signature, norm_from(&c.choke.from))
        }
        Ev::Out { to, msg } => format!("-> {:?} {:?}", to, msg),
        Ev::WalSave { rec: Some(r), ok } => format!("wal {} {} {} {:?} {} {}", r.height, r.round, r.step, r.lock, norm_from(&r.from), ok),
        Ev::WalSave { rec: None, .. } => "wal ?".into(),
        Ev::GetBlockStart { .. } | Ev::GetBlock { .. } => ev_s(e),
        Ev::Commit { h, commit } => format!("commit {} {:?}", h, commit),
        Ev::CommitRet { .. } | Ev::ViewChange { .. } | Ev::Returned => ev_s(e),
        _ => return None,
    })
}

#[derive(Clone)]
pub struct Insert {
    /// Just before the stimulus of this index, or two milliseconds after it (where nothing else
    /// happens).
    idx: usize,
    after: bool,
    /// With `after`: at the same moment nevertheless.
    same: bool,
    msg: Msg,
    kind: &'static str,
}

async fn replayed(chain: Chain, script: &[(u64, Act)], ins: &[Insert], end: u64) -> W {
    let w = new_world(chain.clone(), Tape::fixed(vec![], 0));
    add_slot(&w, chain.addrs[0].clone());
    let t0 = det::now_ms();
    let mut q: Vec<(u64, usize, Act)> = vec![];
    for (i, (t, a)) in script.iter().enumerate() {
        for x in ins.iter().filter(|x| x.idx == i) {
            q.push((if x.after && !x.same { t + 2 } else { *t }, if x.after { 3 * i + 2 } else { 3 * i }, Act::Deliver(x.msg.clone())));
        }
        q.push((*t, 3 * i + 1, a.clone()));
    }
    q.sort_by_key(|x| (x.0, x.1));
    for (t, _, a) in &q {
        let now = det::now_ms() - t0;
        if *t > now {
            sleep_ms(t - now).await;
        }
        act(&w, a);
    }
    let now = det::now_ms() - t0;
    if end > now {
        sleep_ms(end - now).await;
    }
    // times relative to the start of this run
    for e in lock(&w).slots[0].log.iter_mut() {
        e.0 -= t0;
    }
    w
}

fn run_with(chain: &Chain, script: &[(u64, Act)], ins: &[Insert], end: u64, seed: u64) -> (Obs, W) {
    det::reseed(seed);
    let w = block_on(replayed(chain.clone(), script, ins, end));
    let mut o: Obs = lock(&w).slots[0].log.iter().filter_map(|(t, e)| obs_of(e).map(|s| (*t, s))).collect();
    // sending the very same certificate once more is not an effect
    let mut seen = HashSet::new();
    o.retain(|x| !x.1.starts_with("-> None AggregatedVote") || seen.insert(x.1.clone()));
    o.sort();
    (o, w)
}

fn height_of(m: &Msg) -> Option<(u64, u64)> {
    Some(match m {
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round),
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round),
        OverlordMsg::SignedChoke(c) => (c.choke.height, c.choke.round),
        OverlordMsg::RichStatus(s) => (s.height, 0),
        _ => return None,
    })
}


/// Every vote certificate that comes up in the history.
fn all_qcs(u: &Pup) -> Vec<AggregatedVote> {
    let mut v = vec![];
    let from = |f: &UpdateFrom, v: &mut Vec<AggregatedVote>| {
        if let UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) = f {
            v.push(q.clone())
        }
    };
    for (_, e) in &lock(&u.w).slots[0].log {
        match e {
            Ev::In(OverlordMsg::AggregatedVote(q)) | Ev::Out { msg: OverlordMsg::AggregatedVote(q), .. } => v.push(q.clone()),
            Ev::In(OverlordMsg::SignedChoke(c)) => from(&c.choke.from, &mut v),
            _ => {}
        }
    }
    v
}

fn gen_insert(u: &mut Pup, n: usize, qcs: &[AggregatedVote], busy: &HashSet<u64>) -> Option<Insert> {
    let idx = u.t.draw(n as u32) as usize;
    let after = u.t.chance(5, 6);
    let at = u.script[idx].0;
    if after && (at + 1..=at + 3).any(|x| busy.contains(&x)) {
        return None;
    }
    let (h, _, ok) = *u.script_pos.get(idx + after as usize)?;
    // the round at that moment, by the log records so far
    let (wh, r) = {
        let g = lock(&u.w);
        let last = g.slots[0].log.iter().filter(|x| x.0 < at || (after && x.0 <= at + 2)).filter_map(|x| if let Ev::WalSave { rec: Some(r), .. } = &x.1 { Some((r.height, r.round)) } else { None }).last();
        last?
    };
    if !ok || h == 0 || wh != h {
        return None;
    }
    let (msg, kind) = match u.t.weighted(&[6, 3, 2, 2, 1]) {
        0 => {
            let rr = match u.t.weighted(&[5, 3, 1]) {
                0 => r,
                1 => r + 1 + u.t.draw(3) as u64,
                _ => r.saturating_sub(1),
            };
            let m = u.invalid_at(h, rr)?;
            if let OverlordMsg::SignedChoke(c) = &m {
                // counts in the node's own round, whatever it carries
                if c.choke.height == h && c.choke.round <= r && crate::monitor::choke_ok(&u.chain, c) {
                    return None;
                }
            }
            (m, "invalid")
        }
        1 => {
            // a copy of one that came while the node was at this height
            let c: Vec<Msg> = (0..idx)
                .filter(|j| u.script_pos[*j].0 == h && u.script_pos[*j].2)
                .filter_map(|j| match &u.script[j].1 {
                    Act::Deliver(m) => {
                        let (mh, mr) = height_of(m)?;
                        let at = u.script_pos[j].1;
                        let same = mh == h && mr >= at && mr <= at + 8;
                        let good = match m {
                            OverlordMsg::RichStatus(_) => mh <= h,
                            // of several certificates for the same thing the node keeps the latest
                            OverlordMsg::AggregatedVote(q) => same && qcs.iter().filter(|c| (c.height, c.round, &c.vote_type) == (q.height, q.round, &q.vote_type)).all(|c| c == q),
                            // a choke that makes the node catch up is not counted the first time,
                            // and a vote for a round to come counts when the next one arrives
                            OverlordMsg::SignedChoke(_) | OverlordMsg::SignedVote(_) => same && mr == at,
                            _ => same,
                        };
                        if good {
                            Some(m.clone())
                        } else {
                            None
                        }
                    }
                    _ => None,
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            (u.t.pick(&c).clone(), "duplicate")
        }
        2 => {
            // of an earlier height, valid or not
            if h < 2 {
                return None;
            }
            let hh = h - 1 - u.t.draw((h - 1).min(3) as u32) as u64;
            let old: Vec<Msg> = u.sent.iter().filter(|m| height_of(m).map(|x| x.0 <= hh).unwrap_or(false)).cloned().collect();
            if !old.is_empty() && u.t.chance(1, 2) {
                (u.t.pick(&old).clone(), "earlier_height")
            } else if hh == 0 {
                return None;
            } else if u.t.chance(1, 4) {
                (OverlordMsg::RichStatus(u.chain.status(hh)), "old_status")
            } else if u.t.chance(1, 2) {
                let q = u.t.draw(3) as u64;
                let m = match u.t.draw(4) {
                    0 => OverlordMsg::AggregatedVote(u.qc(hh, q, 1)?),
                    1 => OverlordMsg::AggregatedVote(u.qc(hh, q, 2)?),
                    2 => u.chokes(hh, q, 1).pop()?,
                    _ => OverlordMsg::SignedProposal(u.proposal(hh, q)?),
                };
                (m, "earlier_height")
            } else {
                let q = u.t.draw(3) as u64;
                (u.invalid_at(hh, q)?, "earlier_height")
            }
        }
        3 => {
            // of an earlier round of this height
            if r == 0 {
                return None;
            }
            let q = u.t.draw(r as u32) as u64;
            let m = match u.t.draw(5) {
                0 => OverlordMsg::AggregatedVote(u.qc(h, q, 1)?),
                1 => {
                    let c = u.qc(h, q, 2)?;
                    if !c.block_hash.is_empty() {
                        return None;
                    }
                    OverlordMsg::AggregatedVote(c)
                }
                2 => u.chokes(h, q, 1).pop()?,
                3 => OverlordMsg::SignedProposal(u.proposal(h, q)?),
                _ => {
                    let o = u.others(h);
                    if o.is_empty() {
                        return None;
                    }
                    let a = u.t.pick(&o).clone();
                    let x = u.any_hash(h);
                    let k = u.t.draw(2) == 1;
                    OverlordMsg::SignedVote(mk_vote(&a, h, q, if k { VoteType::Precommit } else { VoteType::Prevote }, &x))
                }
            };
            (m, "earlier_round")
        }
        _ => (OverlordMsg::RichStatus(u.chain.status(h - u.t.draw(2).min(h as u32 - 1) as u64)), "old_status"),
    };
    if let OverlordMsg::RichStatus(s) = &msg {
        if s.height == 0 || s.height > h {
            return None;
        }
    }
    Some(Insert { idx, after, same: false, msg, kind })
}

/// A forged message of the next height, at the very moment the application announces that height
/// and with no genuine early message it could displace (see the known finding).
fn gen_early(u: &mut Pup, n: usize) -> Option<Insert> {
    let at: Vec<(usize, u64)> = (0..n)
        .filter_map(|i| match &u.script[i].1 {
            Act::Deliver(OverlordMsg::RichStatus(s)) if u.script_pos[i].2 && s.height > u.script_pos[i].0 && s.height <= u.script_pos[i].0 + 4 => Some((i, s.height)),
            _ => None,
        })
        .filter(|(i, h)| !u.script[..*i].iter().any(|x| matches!(&x.1, Act::Deliver(m) if height_of(m).map(|p| p.0 == *h).unwrap_or(false))))
        .collect();
    if at.is_empty() {
        return None;
    }
    let (idx, h) = *u.t.pick(&at);
    let r = u.t.weighted(&[4, 1]) as u64;
    let msg = u.invalid_at(h, r)?;
    if let OverlordMsg::SignedChoke(c) = &msg {
        if c.choke.height == h && crate::monitor::choke_ok(&u.chain, c) {
            return None;
        }
    }
    let after = u.t.chance(2, 3);
    Some(Insert { idx, after, same: true, msg, kind: "next_height" })
}

pub fn case(t: &mut Tape, tr: bool) -> CaseResult {
    let mut res = CaseResult::default();
    let mut prof = [BASE, EARLY, EPOCHS][t.weighted(&[5, 3, 2])];
    prof.spread = true;
    prof.w[INVALID] = 0;
    prof.w[REPLAY] = 0;
    prof.ops = prof.ops.min(30);
    let try_early = t.chance(1, 5);
    if try_early {
        prof.w[STATUS] = 6;
    }
    let mut u = run(t, prof);
    u.t = std::mem::replace(t, Tape::fixed(vec![], 0));
    let t0 = u.started;
    let script: Vec<(u64, Act)> = u.script.iter().map(|(t, a)| (t - t0, a.clone())).collect();
    let end = u.ended - t0;
    let n = script.len();
    let busy: HashSet<u64> = lock(&u.w).slots[0].log.iter().map(|x| x.0).collect();
    let qcs = all_qcs(&u);
    let mut ins: Vec<Insert> = vec![];
    let want = 1 + u.t.draw(8);
    let mut early = false;
    if try_early {
        if let Some(i) = gen_early(&mut u, n) {
            ins.push(i);
            early = true;
        }
    }
    for _ in 0..if early { 0 } else { want * 2 } {
        if ins.len() < want as usize {
            if let Some(i) = gen_insert(&mut u, n, &qcs, &busy) {
                ins.push(i);
            }
        }
    }
    *t = std::mem::replace(&mut u.t, Tape::fixed(vec![], 0));
    let chain = u.chain.clone();
    let seed = t.hash_seed;
    // At most one of them at the very moment of a stimulus, and not if a timer fires just then.
    if let Some(k) = ins.iter().position(|i| !i.after || i.same) {
        let keep = ins[k].clone();
        ins.retain(|i| i.after && !i.same);
        let at = script[keep.idx].0;
        let quiet = script.iter().enumerate().all(|(j, x)| j == keep.idx || x.0 != at) && {
            let (o, _) = run_with(&chain, &script[..keep.idx], &[], at + 1, seed);
            o.iter().all(|x| x.0 < at)
        };
        if quiet {
            ins.push(keep);
            res.tag("same_moment", 1);
        }
    }
    for i in &ins {
        res.tag(i.kind, 1);
    }
    let go = |k: u64, ins: &[Insert]| run_with(&chain, &script, ins, end, det::splitmix(seed ^ (k << 8)));
    let mut base: Vec<Obs> = vec![];
    let mut other: Vec<Obs> = vec![];
    for k in 0..2 {
        base.push(go(k, &[]).0);
    }
    // and with messages of height 0 in the same places: anything that depends on the order of what
    // happens within a millisecond is no matter of their content
    let inert: Vec<Insert> = ins
        .iter()
        .map(|i| Insert { msg: OverlordMsg::SignedVote(mk_vote(&chain.addrs[0], 0, 0, VoteType::Prevote, &nil())), ..i.clone() })
        .collect();
    base.push(go(50, &inert).0);
    if base[0] != base[1] || base[0] != base[2] {
        res.tag("races", 1);
        return res;
    }
    let (o, w) = go(2, &ins);
    let mut differs = o != base[0];
    other.push(o);
    res.tag("inserted", ins.len() as u64);
    res.tag("outputs", base[0].len() as u64);
    if differs {
        // could either have been a matter of scheduling?
        for k in 3..28 {
            base.push(go(k, &[]).0);
            other.push(go(k + 100, &ins).0);
        }
        differs = !base.iter().any(|b| other.contains(b));
        if early && !differs {
            // such a message is put aside without any further ado: it may not even bring up
            // outcomes that scheduling does not
            for k in 28..60 {
                base.push(go(k, &[]).0);
                base.push(go(k, &inert).0);
            }
            differs = other.iter().filter(|o| !base.contains(o)).count() * 4 >= other.len();
        }
    }
    if differs {
        let b = &base[0];
        let o = other.iter().find(|o| !base.contains(o)).unwrap();
        let cut = |x: &(u64, String)| format!("{} ms {}", x.0, x.1.chars().take(160).collect::<String>());
        let extra = o.iter().find(|x| !b.contains(x)).map(cut);
        let missing = b.iter().find(|x| !o.contains(x)).map(cut);
        res.fail("interference", format!("after inserting {}: new {:?}, missing {:?}", ins.iter().map(|i| format!("{} {}", i.kind, msg_s(&i.msg))).collect::<Vec<_>>().join("; "), extra, missing));
    }
    res.nontrivial = !ins.is_empty() && u.mon.cov.get("votes_sent").copied().unwrap_or(0) > 0;
    let mut sig = 0;
    for x in &base[0] {
        sig = det::splitmix(sig ^ x.0 ^ (x.1.len() as u64) << 32);
    }
    for i in &ins {
        sig = det::splitmix(sig ^ i.idx as u64 ^ (msg_s(&i.msg).len() as u64) << 20);
    }
    res.sig = sig;
    res.sample = format!(
        "{} stimuli over {} ms, {} outputs, ends at height {} round {}; inserted {}",
        n,
        end,
        base[0].len(),
        u.mon.h,
        u.mon.r,
        ins.iter().map(|i| format!("{} {}", i.kind, msg_s(&i.msg))).collect::<Vec<_>>().join("; ")
    );
    if tr {
        res.trace = trace_of(&lock(&w));
        res.trace.push("---- without the inserted messages:".into());
        res.trace.extend(trace_of(&lock(&go(0, &[]).1)));
    }
    res
}
