//! C13: whatever arrives and whatever fails, a node neither panics nor spins nor stops, and
//! afterwards follows a well-behaved quorum to the next commit.
use crate::det;
use crate::monitor::*;
use crate::puppet::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;

// ---------------------------------------------------------------- arbitrary messages

/// Who signs what the others say: anybody but the node itself.
fn someone(u: &mut Pup, h: u64) -> Address {
    let o = u.others(h);
    match u.t.weighted(&[5, 1, 1, 1]) {
        0 if !o.is_empty() => u.t.pick(&o).clone(),
        1 => hash_bytes(&[9, u.t.draw(4) as u8]).slice(0..20),
        2 => Bytes::new(),
        _ => Bytes::from(u.t.bytes(40)),
    }
}
/// A claimed address, which may be the node's own.
fn claimed(u: &mut Pup, h: u64) -> Address {
    if u.t.chance(1, 8) {
        u.me.clone()
    } else {
        someone(u, h)
    }
}
fn height(u: &mut Pup) -> u64 {
    let h = u.mon.model_h.max(1);
    match u.t.weighted(&[10, 4, 2, 1, 1, 1, 1]) {
        0 => h,
        1 => h + 1 + u.t.draw(6) as u64,
        2 => h.saturating_sub(1 + u.t.draw(3) as u64),
        3 => 0,
        4 => u64::MAX,
        5 => u64::MAX - u.t.draw(12) as u64,
        _ => u.t.u64(),
    }
}
fn round(u: &mut Pup) -> u64 {
    let r = u.mon.r;
    match u.t.weighted(&[8, 3, 3, 2, 1, 1, 1, 1]) {
        0 => r,
        1 => r + 1,
        2 => r.saturating_sub(1),
        3 => r + u.t.draw(14) as u64,
        4 => 0,
        5 => u64::MAX,
        6 => u64::MAX - u.t.draw(12) as u64,
        _ => u.t.u64(),
    }
}
fn hash(u: &mut Pup, h: u64) -> Hash {
    match u.t.weighted(&[5, 2, 1, 1]) {
        0 => u.any_hash(h),
        1 => nil(),
        2 => Bytes::from(u.t.bytes(100)),
        _ => hash_bytes(&u.t.bytes(4)),
    }
}
fn signature(u: &mut Pup, who: &Address, payload: &Hash) -> Signature {
    match u.t.weighted(&[6, 1, 1, 1]) {
        0 if who != &u.me => sign_as(who, payload),
        1 => Bytes::new(),
        2 => Bytes::from(u.t.bytes(200)),
        _ => {
            let o = u.others(u.mon.model_h.max(1));
            match o.first() {
                Some(a) => sign_as(a, payload),
                None => Bytes::from_static(b"none"),
            }
        }
    }
}
fn bitmap(u: &mut Pup, h: u64) -> Bytes {
    match u.t.weighted(&[3, 2, 2, 1, 1]) {
        0 => {
            let all: Vec<Address> = u.chain.sorted(h).into_iter().map(|x| x.0).collect();
            u.chain.bitmap(h, &all)
        }
        1 => {
            let o = u.others(h);
            let s = u.t.subset(o.len());
            let v: Vec<Address> = s.into_iter().map(|i| o[i].clone()).collect();
            u.chain.bitmap(h, &v)
        }
        2 => Bytes::from(u.t.bytes(40)),
        3 => Bytes::from(vec![0xff; u.t.draw(70) as usize]),
        _ => Bytes::new(),
    }
}
fn any_qc(u: &mut Pup, h: u64, r: u64) -> AggregatedVote {
    let k = if u.t.chance(1, 2) { VoteType::Prevote } else { VoteType::Precommit };
    let x = hash(u, h);
    let near = h <= u.mon.model_h + 8;
    let o = if near { u.others(h) } else { vec![] };
    let s = u.t.subset(o.len());
    // Certificates that verify, but do not weigh enough, and ones that do not verify.
    let mut who: Vec<Address> = s.into_iter().map(|i| o[i].clone()).collect();
    while near && !who.is_empty() && u.chain.quorum(h, u.chain.weight_of(h, &who)) {
        who.pop();
    }
    let pay = vote_payload(h, r, &k, &x);
    let mut q = AggregatedVote {
        signature: AggregatedSignature { signature: agg_as(&who, &pay), address_bitmap: if near { u.chain.bitmap(h, &who) } else { Bytes::new() } },
        vote_type: k,
        height: h,
        round: r,
        block_hash: x,
        leader: claimed(u, h),
    };
    match u.t.weighted(&[3, 2, 1, 2]) {
        0 => {}
        1 => q.signature.address_bitmap = bitmap(u, h),
        2 => q.signature.signature = Bytes::from(u.t.bytes(64)),
        _ => {
            q.signature.address_bitmap = bitmap(u, h);
            q.signature.signature = Bytes::from(u.t.bytes(64));
        }
    }
    q
}
fn any_from(u: &mut Pup, h: u64) -> UpdateFrom {
    let r = round(u);
    match u.t.draw(4) {
        0 => mock_from(),
        1 => UpdateFrom::PrevoteQC(any_qc(u, h, r)),
        2 => UpdateFrom::PrecommitQC(any_qc(u, h, r)),
        _ => {
            let n = u.t.draw(9) as usize;
            let voters: Vec<Address> = (0..n).map(|_| claimed(u, h)).collect();
            UpdateFrom::ChokeQC(AggregatedChoke { height: h, round: r, signature: Bytes::from(u.t.bytes(40)), voters })
        }
    }
}

pub fn wild(u: &mut Pup) -> Msg {
    let h = height(u);
    let r = round(u);
    match u.t.draw(5) {
        0 => {
            let who = claimed(u, h);
            let k = if u.t.chance(1, 2) { VoteType::Prevote } else { VoteType::Precommit };
            let x = hash(u, h);
            let v = Vote { height: h, round: r, vote_type: k.clone(), block_hash: x.clone() };
            let s = signature(u, &who, &vote_payload(h, r, &k, &x));
            OverlordMsg::SignedVote(SignedVote { voter: who, vote: v, signature: s })
        }
        1 => {
            let leader = if h <= u.mon.model_h + 8 && h > 0 { u.chain.leader(h, r.min(1 << 40)) } else { u.me.clone() };
            let who = if u.t.chance(2, 3) && leader != u.me { leader } else { claimed(u, h) };
            let b = match u.blocks.get(&h).cloned() {
                Some(v) if u.t.chance(1, 2) => u.t.pick(&v).clone(),
                _ => Blk { height: if u.t.chance(1, 6) { u.t.u64() } else { h }, nonce: u.t.u64(), proposer: u.t.draw(256) as u8, quality: [Q_VALID, Q_INVALID, Q_FLAKY][u.t.draw(3) as usize], delay: 0 },
            };
            let x = if u.t.chance(2, 3) { b.hash() } else { hash(u, h) };
            let lock = if u.t.chance(1, 2) {
                let lr = round(u);
                let (qh, qr) = if u.t.chance(2, 3) { (h, lr) } else { (height(u), round(u)) };
                Some(PoLC { lock_round: lr, lock_votes: any_qc(u, qh, qr) })
            } else {
                None
            };
            let p = Proposal { height: h, round: r, content: b, block_hash: x, lock, proposer: if u.t.chance(1, 8) { claimed(u, h) } else { who.clone() } };
            let pay = proposal_payload(&p);
            let s = signature(u, &who, &pay);
            OverlordMsg::SignedProposal(SignedProposal { proposal: p, signature: s })
        }
        2 => OverlordMsg::AggregatedVote(any_qc(u, h, r)),
        3 => {
            let who = claimed(u, h);
            let s = signature(u, &who, &choke_payload(h, r));
            let fh = if u.t.chance(3, 4) { h } else { height(u) };
            let from = any_from(u, fh);
            OverlordMsg::SignedChoke(SignedChoke { address: who, choke: Choke { height: h, round: r, from }, signature: s })
        }
        _ => {
            // a status of the past
            let to = 1 + u.t.draw(u.mon.model_h.max(1) as u32) as u64;
            OverlordMsg::RichStatus(u.chain.status(to))
        }
    }
}

// ---------------------------------------------------------------- the way back

fn calm(u: &mut Pup) {
    for k in [0, 1, 2, 3, 4, 5, 6, 7, 9, 10] {
        u.act(Act::Fail(k, 0));
    }
    u.act(Act::Fail(8, Q_VALID as u32));
    lock(&u.w).slots[0].calm = true;
}

pub fn max_interval(u: &Pup) -> u64 {
    u.chain.epochs.iter().map(|e| e.interval).max().unwrap()
}

async fn sync_to(u: &mut Pup, from: u64) -> Option<u64> {
    let h = (from..from + 40).find(|h| u.chain.is_member(*h, &u.me))?;
    u.act(Act::AppHeight(h - 1));
    u.act(Act::Deliver(OverlordMsg::RichStatus(u.chain.status(h))));
    u.sleep(3).await;
    // It may be waiting for the interval to pass, or have a queue of messages before this one and
    // commit heights by itself in between.
    let (mut k, mut at) = (0, 0);
    while u.mon.h < h && k < 60 {
        k = if u.mon.h > at { 1 } else { k + 1 };
        at = u.mon.h;
        let d = max_interval(u) / 10 + 1;
        u.sleep(d).await;
    }
    Some(h)
}

fn committed(u: &Pup, since: usize, h: u64) -> bool {
    lock(&u.w).slots[0].log[since..].iter().any(|(_, e)| matches!(e, Ev::Commit { h: x, .. } if *x >= h))
}

/// All others vote as one, with the node where it agrees.
async fn quorum(u: &mut Pup, h: u64, r: u64, k: VoteType, x: &Hash) {
    let others = u.others(h);
    if u.chain.leader(h, r) == u.me {
        for a in others {
            u.act(Act::Deliver(OverlordMsg::SignedVote(mk_vote(&a, h, r, k.clone(), x))));
        }
    } else {
        let mut who = others;
        if u.mon.released_vote(h, r, tn(&k)).as_ref() == Some(x) {
            who.push(u.me.clone());
        }
        if u.chain.quorum(h, u.chain.weight_of(h, &who)) {
            let l = u.chain.leader(h, r);
            let q = u.chain.make_qc(h, r, k, x, &who, &l);
            u.act(Act::Deliver(OverlordMsg::AggregatedVote(q)));
        }
    }
    u.sleep(2).await;
}

/// The round ends by chokes of everybody.
async fn choke_on(u: &mut Pup, h: u64, r: u64) {
    let mut waited = 0;
    while (u.mon.h, u.mon.r) == (h, r) && u.mon.step != S_BRAKE && waited < 12 {
        waited += 1;
        let now = det::now_ms();
        let d = u.mon.deadline().filter(|d| *d >= now).map(|d| d - now + 2).unwrap_or(max_interval(u) * 8);
        u.sleep(d).await;
    }
    if (u.mon.h, u.mon.r) != (h, r) {
        return;
    }
    // the certificate of the choke: what brought the node here
    let from = if r == 0 {
        mock_from()
    } else {
        let all: Vec<Address> = u.chain.sorted(h).into_iter().map(|x| x.0).collect();
        UpdateFrom::ChokeQC(u.chain.make_choke_qc(h, r - 1, &all))
    };
    for a in u.others(h) {
        u.act(Act::Deliver(OverlordMsg::SignedChoke(mk_choke(&a, h, r, from.clone()))));
    }
    u.sleep(2).await;
}

/// The others behave from now on. `None`: the node followed them to a commit.
pub async fn follow(u: &mut Pup, wild: bool) -> Result<u64, String> {
    calm(u);
    let i = max_interval(u);
    if !u.mon.alive {
        let init = lock(&u.w).slots[0].app_height + 1;
        u.act(Act::Restart(init));
        u.act(Act::Deliver(OverlordMsg::RichStatus(u.chain.status(init))));
    }
    // whatever is still under way ends
    u.sleep(4 * i + 10).await;
    let app = lock(&u.w).slots[0].app_height;
    let known = u.mon.model_h.max(app);
    let since = lock(&u.w).slots[0].log.len();
    let h = if wild {
        // Beyond the height of any message that was sent.
        sync_to(u, known + 7).await
    } else if u.mon.outsider || u.mon.suspended || u.mon.is_stuck() || u.mon.h != u.mon.model_h || !u.mon.pos_known {
        // A failed commit, or one whose record was lost: the application tells where it is.
        sync_to(u, known + 1).await
    } else {
        Some(u.mon.h)
    };
    let Some(h) = h else { return Ok(0) };
    let top = |m: &std::collections::HashMap<(u64, u64), Hash>| m.keys().filter(|k| k.0 == h).map(|k| k.1 + 1).max().unwrap_or(0);
    let props = u.props.keys().filter(|k| k.0 == h).map(|k| k.1 + 1).max().unwrap_or(0);
    let votes = u.votes.keys().filter(|k| k.0 == h).map(|k| k.1 + 1).max().unwrap_or(0);
    let fresh = if wild { 0 } else { top(&u.pv).max(top(&u.pc)).max(props).max(votes) };
    if fresh > 80 {
        return Ok(0);
    }
    let mut steps = 0;
    let mut tries = 0;
    while tries < 2 * u.chain.n(h) + 3 && steps < 200 {
        steps += 1;
        if committed(u, since, h) {
            return Ok(steps);
        }
        let (hh, r) = (u.mon.h, u.mon.r);
        if hh != h {
            return Err(format!("at height {} instead of {}", hh, h));
        }
        if r < fresh {
            choke_on(u, h, r).await;
            continue;
        }
        tries += 1;
        let lead = u.chain.leader(h, r) == u.me;
        if lead {
            u.sleep(2).await;
            let p = u.props.get(&(h, r)).and_then(|v| v.last()).cloned();
            if let Some(p) = p.filter(|p| p.proposal.proposer == u.me) {
                let x = p.proposal.block_hash;
                quorum(u, h, r, VoteType::Prevote, &x).await;
                quorum(u, h, r, VoteType::Precommit, &x).await;
            }
        } else {
            // the highest lock there can be, of a block that is valid
            let mut best = None;
            if !wild {
                let mut c: Vec<(u64, Hash)> = u.pv.iter().filter(|(k, x)| k.0 == h && k.1 < r && !x.is_empty()).map(|(k, x)| (k.1, x.clone())).collect();
                c.sort();
                for (q, x) in c.into_iter().rev() {
                    if u.find(h, &x).map(|b| b.quality != Q_INVALID).unwrap_or(false) {
                        if let Some(qc) = u.qc(h, q, 1) {
                            best = Some(PoLC { lock_round: q, lock_votes: qc });
                            break;
                        }
                    }
                }
            }
            let b = match &best {
                Some(l) => u.find(h, &l.lock_votes.block_hash).unwrap(),
                None => {
                    let mut b = u.block(h);
                    b.quality = Q_VALID;
                    b.delay = 0;
                    b
                }
            };
            let l = u.chain.leader(h, r);
            let x = b.hash();
            let p = mk_proposal(&l, h, r, &b, &x, best);
            u.act(Act::Deliver(OverlordMsg::SignedProposal(p)));
            u.sleep(2 + b.delay as u64).await;
            quorum(u, h, r, VoteType::Prevote, &x).await;
            quorum(u, h, r, VoteType::Precommit, &x).await;
        }
        u.sleep(2).await;
        if committed(u, since, h) {
            return Ok(steps);
        }
        if (u.mon.h, u.mon.r) == (h, r) {
            choke_on(u, h, r).await;
        }
    }
    Err(format!("no commit of height {} after {} rounds of a well-behaved quorum: at height {} round {} step {}", h, tries, u.mon.h, u.mon.r, u.mon.step))
}

async fn history(t: Tape) -> (Pup, u64, Result<u64, String>) {
    let mut t = t;
    let kind = t.weighted(&[4, 3, 2]);
    let is_wild = kind != 1;
    // Without wild messages the others stay consistent, and the node goes on at its height.
    let mut u = begin(t, MIXED).await;
    let n = 6 + u.t.draw(u.p.ops);
    let mut sent = 0;
    for _ in 0..n {
        let burst = is_wild && u.mon.alive && u.t.chance(if kind == 2 { 3 } else { 1 }, 4);
        if burst {
            let k = 1 + u.t.draw(8);
            for _ in 0..k {
                let m = wild(&mut u);
                let m = if u.t.chance(1, 3) { wire(&m).unwrap_or(m) } else { m };
                u.act(Act::Deliver(m));
                sent += 1;
                if u.t.chance(1, 4) {
                    u.settle().await;
                }
            }
            if u.t.chance(1, 8) {
                let k = 1 + u.t.draw(3);
                u.act(Act::Fail(9, k));
            }
            if u.t.chance(3, 4) {
                u.settle().await;
            }
        } else {
            u.op().await;
        }
        if u.t.used.len() > 60_000 {
            break;
        }
    }
    u.settle().await;
    let r = follow(&mut u, is_wild).await;
    (u, sent, r)
}

pub fn case(t: &mut Tape, trace: bool) -> CaseResult {
    let tape = std::mem::replace(t, Tape::fixed(vec![], 0));
    let (mut u, sent, res) = block_on(history(tape));
    *t = std::mem::replace(&mut u.t, Tape::fixed(vec![], 0));
    let mut r = judge(&u, &[], &[], trace);
    r.tag("wild_messages", sent);
    for p in panics() {
        if !p.contains(" at src/") || p.contains("/repo/") {
            r.fail("panic", p);
        }
    }
    if lock(&u.w).slots[0].log.iter().any(|(_, e)| matches!(e, Ev::Returned)) {
        r.fail("returned", "the run ended".into());
    }
    match res {
        Ok(0) => {}
        Ok(k) => {
            r.tag("followed_to_a_commit", 1);
            r.tag("rounds_to_the_commit", k);
            let c = &u.mon.cov;
            let g = |k: &str| c.get(k).copied().unwrap_or(0);
            r.nontrivial = sent > 0 || g("failed_log_writes") + g("failed_checks") + g("restarted") + g("rounds_entered") > 0;
        }
        Err(d) => r.fail("wedged", d),
    }
    r
}
