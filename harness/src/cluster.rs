//! Cluster simulation: real nodes, a generated network and crash schedule, and Byzantine agents
//! that own fewer than one third of the vote weight.
use crate::det;
use crate::runner::CaseResult;
use crate::tape::Tape;
use crate::world::*;
use overlord::types::*;
use overlord::DurationConfig;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Profile {
    pub byz: bool,
    pub crashes: bool,
    pub epochs: bool,
    pub faults: bool,
    pub liveness: bool,
    /// Fault-phase length in block intervals.
    pub span: u64,
}

#[derive(Default)]
pub struct Net {
    pub slot_of: Vec<Option<usize>>,
    pub byz: Vec<bool>,
    pub calm: bool,
    /// Starvation: chokes get through, almost nothing else does, so that rounds pass without end.
    pub starve: u8,
    pub drop: u32,
    pub dup: u32,
    pub dmax: u64,
    pub calm_dmax: u64,
    pub group: Vec<u32>,
    pub agent: Agent,
    pub wire_errors: Vec<String>,
    pub lag: HashMap<usize, (u64, u64)>,
    pub stats: BTreeMap<String, u64>,
}

#[derive(Default)]
pub struct Agent {
    pub votes: BTreeMap<(u64, u64, u8, Hash), BTreeMap<Address, Signature>>,
    pub proposals: BTreeMap<(u64, u64), Vec<SignedProposal<Blk>>>,
    pub qcs: Vec<AggregatedVote>,
    pub chokes: BTreeMap<(u64, u64), BTreeMap<Address, Signature>>,
    pub froms: Vec<UpdateFrom>,
    pub led: BTreeSet<(u64, u64)>,
    pub top: u64,
    pub nonce: u64,
    pub act: u32,
}

fn vt(t: &VoteType) -> u8 {
    if *t == VoteType::Prevote {
        1
    } else {
        2
    }
}
fn tv(t: u8) -> VoteType {
    if t == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}

fn with_net<R>(g: &mut World, f: impl FnOnce(&mut World, &mut Net) -> R) -> R {
    let mut e = std::mem::replace(&mut g.ext, Box::new(()));
    let r = f(g, e.downcast_mut::<Net>().expect("net"));
    g.ext = e;
    r
}

fn send_at(w: &W, slot: usize, msg: Msg, ms: u64) {
    let w = w.clone();
    tokio::spawn(async move {
        sleep_ms(ms).await;
        match wire(&msg) {
            Ok(m) => {
                deliver(&w, slot, m);
            }
            Err(e) => {
                let mut g = lock(&w);
                with_net(&mut g, |_, n| n.wire_errors.push(e));
            }
        }
    });
}

fn bump(n: &mut Net, k: &str) {
    *n.stats.entry(k.to_string()).or_insert(0) += 1;
}

fn route(g: &mut World, w: &W, slot: usize, to: Option<Address>, msg: Msg) {
    let from = g.chain.index_of(&g.slots[slot].addr).unwrap();
    let targets: Vec<usize> = match &to {
        Some(a) => g.chain.index_of(a).into_iter().collect(),
        None => (0..g.chain.addrs.len()).filter(|i| *i != from).collect(),
    };
    with_net(g, |g, n| {
        let mut agent_seen = false;
        for t in targets {
            if n.byz[t] {
                if !agent_seen {
                    agent_seen = true;
                    agent_on(g, n, w, &msg, t);
                }
                continue;
            }
            let Some(s) = n.slot_of[t] else { continue };
            if n.calm {
                let d = 1 + g.tape.draw(n.calm_dmax as u32) as u64;
                send_at(w, s, msg.clone(), d);
                continue;
            }
            if n.starve > 0 {
                let p = match &msg {
                    OverlordMsg::SignedChoke(_) => 100,
                    OverlordMsg::SignedProposal(_) => [20, 90][n.starve as usize - 1],
                    OverlordMsg::SignedVote(v) if v.is_prevote() => [20, 90][n.starve as usize - 1],
                    OverlordMsg::AggregatedVote(q) if q.is_prevote_qc() => [20, 50][n.starve as usize - 1],
                    _ => 4,
                };
                if g.tape.draw(100) >= p {
                    bump(n, "starved");
                    continue;
                }
                let d = 1 + g.tape.draw(n.dmax as u32) as u64;
                send_at(w, s, msg.clone(), d);
                continue;
            }
            if n.group[from] != n.group[t] {
                bump(n, "partitioned");
                continue;
            }
            let v = g.tape.draw(100);
            if v >= 100 - n.drop {
                bump(n, "dropped");
                continue;
            }
            let copies = if v >= 100 - n.drop - n.dup { 2 } else { 1 };
            for _ in 0..copies {
                let d = if g.tape.chance(1, 8) { 1 + g.tape.draw(4 * n.dmax as u32) } else { 1 + g.tape.draw(n.dmax as u32) };
                send_at(w, s, msg.clone(), d as u64);
            }
        }
    });
}

fn learn(n: &mut Net, msg: &Msg) {
    let a = &mut n.agent;
    match msg {
        OverlordMsg::SignedVote(v) => {
            a.votes
                .entry((v.vote.height, v.vote.round, vt(&v.vote.vote_type), v.vote.block_hash.clone()))
                .or_default()
                .insert(v.voter.clone(), v.signature.clone());
        }
        OverlordMsg::SignedProposal(p) => {
            let k = (p.proposal.height, p.proposal.round);
            if let Some(l) = &p.proposal.lock {
                a.qcs.push(l.lock_votes.clone());
            }
            a.proposals.entry(k).or_default().push(p.clone());
        }
        OverlordMsg::AggregatedVote(q) => a.qcs.push(q.clone()),
        OverlordMsg::SignedChoke(c) => {
            a.chokes.entry((c.choke.height, c.choke.round)).or_default().insert(c.address.clone(), c.signature.clone());
            a.froms.push(c.choke.from.clone());
            if a.froms.len() > 40 {
                a.froms.remove(0);
            }
        }
        _ => {}
    }
    if a.qcs.len() > 60 {
        a.qcs.remove(0);
    }
}

fn hr(m: &Msg) -> Option<(u64, u64)> {
    Some(match m {
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round),
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round),
        OverlordMsg::SignedChoke(c) => (c.choke.height, c.choke.round),
        _ => return None,
    })
}

fn honest(n: &Net) -> Vec<usize> {
    n.slot_of.iter().flatten().cloned().collect()
}

fn to_some(g: &mut World, n: &mut Net, w: &W, msg: Msg) {
    let hs = honest(n);
    let pick: Vec<usize> = match g.tape.draw(3) {
        0 => hs.clone(),
        1 => vec![*g.tape.pick(&hs)],
        _ => {
            let s = g.tape.subset(hs.len());
            s.into_iter().map(|i| hs[i]).collect()
        }
    };
    for s in pick {
        let d = 1 + g.tape.draw(n.dmax as u32 * 2) as u64;
        send_at(w, s, msg.clone(), d);
    }
}

fn agent_on(g: &mut World, n: &mut Net, w: &W, msg: &Msg, _at: usize) {
    learn(n, msg);
    let Some((h, r)) = hr(msg) else { return };
    if h < n.agent.top.saturating_sub(2) {
        return;
    }
    n.agent.top = n.agent.top.max(h);
    let byz: Vec<usize> = (0..n.byz.len()).filter(|i| n.byz[*i]).collect();
    // Lead when due.
    for (hh, rr) in [(h, r), (h, r + 1), (h + 1, 0)] {
        let l = g.chain.leader(hh, rr);
        if byz.iter().any(|b| g.chain.addrs[*b] == l) && !n.agent.led.contains(&(hh, rr)) && g.tape.chance(1, 2) {
            n.agent.led.insert((hh, rr));
            byz_propose(g, n, w, &l, hh, rr);
        }
    }
    if !g.tape.chance(n.agent.act, 100) {
        return;
    }
    let b = *g.tape.pick(&byz);
    let me = g.chain.addrs[b].clone();
    match g.tape.weighted(&[3, 5, 2, 1, 1]) {
        0 => {
            // Conflicting votes to different nodes.
            let mut hashes: Vec<Hash> = n.agent.proposals.get(&(h, r)).map(|v| v.iter().map(|p| p.proposal.block_hash.clone()).collect()).unwrap_or_default();
            hashes.push(nil());
            let leader = g.chain.leader(h, r);
            let hs = honest(n);
            for _ in 0..2 {
                let hash = g.tape.pick(&hashes).clone();
                let t = tv(1 + g.tape.draw(2) as u8);
                let v = mk_vote(&me, h, r, t, &hash);
                n.agent.votes.entry((h, r, vt(&v.vote.vote_type), hash)).or_default().insert(me.clone(), v.signature.clone());
                bump(n, "byz_vote");
                let s = n.slot_of[g.chain.index_of(&leader).unwrap()];
                match s {
                    Some(s) if g.tape.chance(2, 3) => {
                        let d = 1 + g.tape.draw(n.dmax as u32) as u64;
                        send_at(w, s, OverlordMsg::SignedVote(v), d)
                    }
                    _ => {
                        let s = *g.tape.pick(&hs);
                        send_at(w, s, OverlordMsg::SignedVote(v), 1)
                    }
                }
            }
        }
        1 => {
            // Build whatever certificate is possible and show it to some nodes only.
            let keys: Vec<_> = n.agent.votes.keys().filter(|k| k.0 == h && k.1 + 3 > r).cloned().collect();
            if keys.is_empty() {
                return;
            }
            let k = g.tape.pick(&keys).clone();
            let mut who: BTreeMap<Address, Signature> = n.agent.votes[&k].clone();
            let pay = vote_payload(k.0, k.1, &tv(k.2), &k.3);
            for b in &byz {
                let a = g.chain.addrs[*b].clone();
                if g.chain.is_member(h, &a) {
                    who.insert(a.clone(), sign_as(&a, &pay));
                }
            }
            // only real signatures
            let addrs: Vec<Address> = who.iter().filter(|(a, s)| sign_as(a, &pay) == **s && g.chain.is_member(h, a)).map(|x| x.0.clone()).collect();
            let enough = g.chain.quorum(h, g.chain.weight_of(h, &addrs));
            if !enough && !g.tape.chance(1, 4) {
                return;
            }
            let qc = g.chain.make_qc(k.0, k.1, tv(k.2), &k.3, &addrs, &me);
            bump(n, if enough { "byz_qc" } else { "byz_weak_qc" });
            if enough {
                n.agent.qcs.push(qc.clone());
            }
            to_some(g, n, w, OverlordMsg::AggregatedVote(qc));
        }
        2 => {
            let from = byz_from(g, n, &byz, h, r);
            let rr = r + g.tape.draw(3) as u64;
            let c = mk_choke(&me, h, rr, from);
            bump(n, "byz_choke");
            to_some(g, n, w, OverlordMsg::SignedChoke(c));
        }
        3 => {
            if n.agent.qcs.is_empty() {
                return;
            }
            let q = g.tape.pick(&n.agent.qcs).clone();
            bump(n, "byz_replay");
            to_some(g, n, w, OverlordMsg::AggregatedVote(q));
        }
        _ => {
            // Forgeries.
            let hashes: Vec<Hash> = n.agent.proposals.get(&(h, r)).map(|v| v.iter().map(|p| p.proposal.block_hash.clone()).collect()).unwrap_or_default();
            if hashes.is_empty() {
                return;
            }
            let hash = g.tape.pick(&hashes).clone();
            let t = tv(1 + g.tape.draw(2) as u8);
            let all: Vec<Address> = g.chain.sorted(h).into_iter().map(|x| x.0).collect();
            let mine: Vec<Address> = byz.iter().map(|b| g.chain.addrs[*b].clone()).collect();
            let mut qc = g.chain.make_qc(h, r, t, &hash, &mine, &me);
            if g.tape.chance(1, 2) {
                qc.signature.address_bitmap = g.chain.bitmap(h, &all);
            }
            bump(n, "byz_forged_qc");
            to_some(g, n, w, OverlordMsg::AggregatedVote(qc));
        }
    }
}

fn byz_from(g: &mut World, n: &mut Net, byz: &[usize], h: u64, r: u64) -> UpdateFrom {
    let me = g.chain.addrs[byz[0]].clone();
    match g.tape.draw(4) {
        0 => mock_from(),
        1 if !n.agent.froms.is_empty() => g.tape.pick(&n.agent.froms).clone(),
        2 => {
            // forged commit certificate for some known hash
            let hash = n.agent.proposals.get(&(h, r)).and_then(|v| v.first()).map(|p| p.proposal.block_hash.clone()).unwrap_or(nil());
            let all: Vec<Address> = g.chain.sorted(h).into_iter().map(|x| x.0).collect();
            let mut q = g.chain.make_qc(h, r, tv(1 + g.tape.draw(2) as u8), &hash, &[me.clone()], &me);
            q.signature.address_bitmap = g.chain.bitmap(h, &all);
            if q.vote_type == VoteType::Prevote {
                UpdateFrom::PrevoteQC(q)
            } else {
                UpdateFrom::PrecommitQC(q)
            }
        }
        _ => {
            let all: Vec<Address> = g.chain.sorted(h).into_iter().map(|x| x.0).collect();
            let mut c = g.chain.make_choke_qc(h, r, &[me]);
            c.voters = all;
            UpdateFrom::ChokeQC(c)
        }
    }
}

fn byz_block(g: &mut World, n: &mut Net, h: u64, idx: usize) -> Blk {
    n.agent.nonce += 1;
    Blk { height: h, nonce: 1 << 40 | n.agent.nonce, proposer: idx as u8, quality: [Q_VALID, Q_VALID, Q_VALID, Q_INVALID][g.tape.draw(4) as usize], delay: 0 }
}

fn byz_propose(g: &mut World, n: &mut Net, w: &W, me: &Address, h: u64, r: u64) {
    let idx = g.chain.index_of(me).unwrap();
    let hs = honest(n);
    let mode = g.tape.draw(6);
    if mode == 0 {
        return;
    }
    bump(n, "byz_proposals");
    let variants = if mode >= 4 { 1 } else { 2 };
    let mut ps = vec![];
    for _ in 0..variants {
        let known: Vec<Blk> = n.agent.proposals.iter().filter(|(k, _)| k.0 == h).flat_map(|(_, v)| v.iter().map(|p| p.proposal.content.clone())).collect();
        let blk = if !known.is_empty() && g.tape.chance(1, 2) { g.tape.pick(&known).clone() } else { byz_block(g, n, h, idx) };
        let mut hash = blk.hash();
        let mut blk = blk;
        let mut lock = None;
        let pq: Vec<AggregatedVote> = n.agent.qcs.iter().filter(|q| q.height == h && q.is_prevote_qc() && !q.block_hash.is_empty()).cloned().collect();
        match g.tape.draw(5) {
            1 if !pq.is_empty() => {
                // A genuine lock, for its own block or (dishonestly) for another one.
                let q = g.tape.pick(&pq).clone();
                let lr = if g.tape.chance(1, 3) { q.round + g.tape.draw(3) as u64 } else { q.round };
                if g.tape.chance(2, 3) {
                    if let Some(b) = known.iter().find(|b| b.hash() == q.block_hash) {
                        blk = b.clone();
                        hash = b.hash();
                    }
                }
                lock = Some(PoLC { lock_round: lr, lock_votes: q });
            }
            2 => {
                // A forged lock.
                let all: Vec<Address> = g.chain.sorted(h).into_iter().map(|x| x.0).collect();
                let mut q = g.chain.make_qc(h, r.saturating_sub(1), VoteType::Prevote, &hash, &[me.clone()], me);
                q.signature.address_bitmap = if g.tape.chance(1, 2) { g.chain.bitmap(h, &all) } else { g.chain.bitmap(h, &[me.clone()]) };
                lock = Some(PoLC { lock_round: r.saturating_sub(1), lock_votes: q });
            }
            3 if !known.is_empty() => {
                // Known hash, other content.
                hash = g.tape.pick(&known).hash();
            }
            _ => {}
        }
        ps.push(mk_proposal(me, h, r, &blk, &hash, lock));
    }
    for p in &ps {
        n.agent.proposals.entry((h, r)).or_default().push(p.clone());
    }
    for s in hs {
        let p = g.tape.pick(&ps).clone();
        let d = 1 + g.tape.draw(n.dmax as u32) as u64;
        send_at(w, s, OverlordMsg::SignedProposal(p), d);
    }
    // Byzantine validators back their own proposals.
    for p in &ps {
        let pay = |t: &VoteType| vote_payload(h, r, t, &p.proposal.block_hash);
        for t in [VoteType::Prevote, VoteType::Precommit] {
            n.agent
                .votes
                .entry((h, r, vt(&t), p.proposal.block_hash.clone()))
                .or_default()
                .insert(me.clone(), sign_as(me, &pay(&t)));
        }
    }
}

pub struct Outcome {
    pub w: W,
    pub live: bool,
    pub live_detail: String,
    pub byz_any: bool,
    pub gst: u64,
    pub settle_ms: u64,
}

fn gen_chain(t: &mut Tape, p: &Profile) -> (Chain, Vec<bool>) {
    let n = [4usize, 4, 5, 7, 3, 6, 2, 1][t.weighted(&[6, 2, 2, 1, 1, 1, 1, 1])];
    let addrs = gen_addrs(t, n);
    let interval = [1000u64, 500, 200, 3000][t.draw(4) as usize];
    let mut epochs = vec![];
    let equal = t.chance(1, 2);
    let mut list: Vec<(usize, u32, u32)> = (0..n).map(|i| (i, 1, 1)).collect();
    if !equal {
        let ws = weights_kind(t, n);
        for (i, w) in ws.iter().enumerate() {
            list[i].2 = *w;
        }
        if list.iter().all(|x| x.2 == 0) {
            list[0].2 = 1;
        }
    }
    t.shuffle(&mut list);
    epochs.push(Epoch { from: 0, list: list.clone(), interval, config: None, say: 0 });
    if p.epochs && t.chance(1, 2) {
        let mut from = 1;
        for _ in 0..1 + t.draw(3) {
            from += 1 + t.draw(3) as u64;
            let mut l = list.clone();
            if n > 2 && t.chance(1, 2) {
                let k = t.draw(n as u32) as usize;
                l.remove(k);
            }
            if t.chance(1, 2) {
                for x in l.iter_mut() {
                    x.2 = 1 + t.draw(4);
                }
            }
            if l.iter().all(|x| x.2 == 0) {
                l.iter_mut().for_each(|x| x.2 = 1);
            }
            t.shuffle(&mut l);
            let config = if t.chance(1, 3) { Some(DurationConfig::new(10 + t.range(0, 20), 5 + t.range(0, 10), 5 + t.range(0, 5), 2 + t.range(0, 5))) } else { None };
            epochs.push(Epoch { from, list: l, interval: [interval, interval / 2, interval * 2][t.draw(3) as usize], config, say: 0 });
        }
        // Come back to the full list, so that everyone ends as a validator.
        from += 2;
        epochs.push(Epoch { from, list: list.clone(), interval, config: None, say: 0 });
    }
    let chain = Chain { addrs, epochs, ..Default::default() };
    // Byzantine set: strictly below a third of the weight at every height, and leaving more than
    // two thirds of the validators by number.
    let mut byz = vec![false; n];
    if p.byz {
        let mut order: Vec<usize> = (0..n).collect();
        t.shuffle(&mut order);
        for i in order {
            byz[i] = true;
            let ok = chain.epochs.iter().all(|e| {
                let tot: u64 = e.list.iter().map(|x| x.2 as u64).sum();
                let bw: u64 = e.list.iter().filter(|x| byz[x.0]).map(|x| x.2 as u64).sum();
                let hn = e.list.iter().filter(|x| !byz[x.0]).count();
                bw * 3 < tot && hn * 3 > e.list.len() * 2
            });
            if !ok || t.chance(1, 5) {
                byz[i] = false;
            }
        }
    }
    (chain, byz)
}

pub fn simulate(t: &mut Tape, p: Profile) -> Outcome {
    let tape = std::mem::replace(t, Tape::fixed(vec![], 0));
    let o = block_on(run(tape, p));
    *t = std::mem::replace(&mut lock(&o.w).tape, Tape::fixed(vec![], 0));
    o
}

async fn run(mut t: Tape, p: Profile) -> Outcome {
    let (chain, byz) = gen_chain(&mut t, &p);
    let n = chain.addrs.len();
    let interval = chain.epochs[0].interval;
    let big = chain.epochs.iter().map(|e| e.interval).max().unwrap();
    let drop = if p.faults { [0, 5, 15, 30][t.draw(4) as usize] } else { 0 };
    let dup = if p.faults { [0, 10][t.draw(2) as usize] } else { 0 };
    let dmax = [interval / 20, interval / 8, interval / 2, interval][if p.faults { t.draw(4) as usize } else { 0 }];
    let act = [30, 60, 90, 10][t.draw(4) as usize];
    let starve = if p.faults && p.liveness && t.chance(1, 16) { 1 + t.draw(2) as u8 } else { 0 };
    let quality = if p.faults && t.chance(1, 3) { 1 } else { 0 };
    let check_delay = [0, interval / 10, interval / 2, interval * 2][t.weighted(&[4, 3, 2, 1])];
    let commit_delay = [0, interval / 10, interval][t.weighted(&[5, 2, 1])];
    let byz_any = byz.iter().any(|b| *b);
    let w = new_world(chain.clone(), t);
    {
        let mut net = Net {
            slot_of: vec![None; n],
            byz: byz.clone(),
            starve,
            drop,
            dup,
            dmax,
            calm_dmax: (interval / 20).max(2),
            group: vec![0; n],
            ..Default::default()
        };
        net.agent.act = act;
        net.agent.nonce = 1;
        for i in 0..n {
            if !byz[i] {
                let s = add_slot(&w, chain.addrs[i].clone());
                net.slot_of[i] = Some(s);
                let mut g = lock(&w);
                g.slots[s].check_delay_max = check_delay;
                g.slots[s].commit_delay = commit_delay;
            }
        }
        let mut g = lock(&w);
        g.ext = Box::new(net);
        g.out = Some(route);
    }
    let slots = lock(&w).slots.len();
    for s in 0..slots {
        start(&w, s, 0);
    }
    // The application starts the chain with the status of height 1.
    for s in 0..slots {
        let st = chain.status(1);
        let d = if p.faults { lock(&w).tape.draw(interval as u32) as u64 } else { 0 };
        send_at(&w, s, OverlordMsg::RichStatus(st), d + 1);
    }
    let tick = if starve > 0 { interval * 10 } else { (interval / 5).max(20) };
    let end_faults = if starve > 0 {
        interval * (100 + lock(&w).tape.draw(2000) as u64)
    } else if p.faults { interval * (2 + lock(&w).tape.draw(p.span as u32) as u64) } else { 0 };
    let mut now = 0;
    let mut down: HashMap<usize, u64> = HashMap::new();
    while now < end_faults {
        sleep_ms(tick).await;
        now += tick;
        let (restart, sync_due) = {
        let mut g = lock(&w);
        let g = &mut *g;
        // Partitions.
        if n > 1 && g.tape.chance(1, 30) {
            let groups: Vec<u32> = (0..n).map(|_| g.tape.draw(2)).collect();
            with_net(g, |_, net| net.group = groups);
        } else if g.tape.chance(1, 12) {
            with_net(g, |_, net| net.group = vec![0; n]);
        }
        if quality == 1 && g.tape.chance(1, 6) {
            let s = g.tape.draw(slots as u32) as usize;
            g.slots[s].block_quality = [Q_VALID, Q_FLAKY, Q_INVALID][g.tape.draw(3) as usize];
        }
        if p.crashes && g.tape.chance(1, if starve > 0 { 40 } else { 12 }) {
            let s = g.tape.draw(slots as u32) as usize;
            if g.slots[s].alive && g.slots[s].crash_in.is_none() {
                g.slots[s].crash_in = Some(g.tape.draw(14) as u64);
            }
        }
        if p.crashes && g.tape.chance(1, 25) {
            let s = g.tape.draw(slots as u32) as usize;
            let f = 1 + g.tape.draw(2);
            match g.tape.draw(4) {
                0 if !p.liveness => g.slots[s].wal_fail = f,
                1 => g.slots[s].check_fail = f,
                2 => g.slots[s].net_fail = f,
                _ => g.slots[s].get_block_fail = f,
            }
        }
        let mut restart = vec![];
        for s in 0..slots {
            if !g.slots[s].alive {
                let at = *down.entry(s).or_insert_with(|| now + g.tape.draw(3 * interval as u32) as u64);
                if now >= at {
                    down.remove(&s);
                    restart.push((s, g.slots[s].app_height + 1));
                }
            }
        }
        let sync_due = g.tape.chance(1, 2);
        (restart, sync_due)
        };
        for (s, init) in restart {
            restart_node(&w, s, init);
        }
        if sync_due {
            sync(&w, now, 2 * big);
        }
    }
    // Calm: heal everything, restart everyone.
    {
        let mut g = lock(&w);
        with_net(&mut g, |_, net| {
            net.calm = true;
            net.starve = 0;
            net.group = vec![0; n];
        });
        for s in g.slots.iter_mut() {
            s.crash_in = None;
            s.wal_fail = 0;
            s.check_fail = 0;
            s.net_fail = 0;
            s.get_block_fail = 0;
            s.block_quality = Q_VALID;
        }
    }
    let dead: Vec<(usize, u64)> = {
        let g = lock(&w);
        (0..slots).filter(|s| !g.slots[*s].alive).map(|s| (s, g.slots[s].app_height + 1)).collect()
    };
    for (s, init) in dead {
        restart_node(&w, s, init);
    }
    let gst = now;
    let top = {
        let g = lock(&w);
        g.slots.iter().map(|s| s.app_height).max().unwrap()
    };
    let mut live = true;
    let mut detail = String::new();
    let last_epoch = chain.epochs.last().unwrap().from;
    let want = if p.liveness { (top + 3).max(last_epoch + 2) } else { top + 2 };
    let gst_len: Vec<usize> = lock(&w).slots.iter().map(|s| s.log.len()).collect();
    // 5.0 = sum of the largest ratios generated, 32 = back-off cap.
    let tick = (interval / 5).max(20);
    let bound = if p.liveness { 32 * 7 * big * (n as u64 + 4) + 60 * big } else { 60 * big };
    let mut settle = 0;
    loop {
        let done = {
            let g = lock(&w);
            (0..slots).all(|s| {
                let own = g.slots[s].log[gst_len[s]..].iter().filter(|(_, e)| matches!(e, Ev::CommitRet { status: Some(_), .. })).count();
                g.slots[s].app_height >= want && own >= 2
            })
        };
        if done {
            break;
        }
        if settle > bound {
            live = false;
            let g = lock(&w);
            detail = (0..slots)
                .map(|s| {
                    let own = g.slots[s].log[gst_len[s]..].iter().filter(|(_, e)| matches!(e, Ev::CommitRet { status: Some(_), .. })).count();
                    format!("node {} at {} with {} commits since", s, g.slots[s].app_height, own)
                })
                .collect::<Vec<_>>()
                .join(", ");
            break;
        }
        let step = tick;
        sleep_ms(step).await;
        settle += step;
        sync(&w, now + settle, 2 * big);
    }
    Outcome { w, live, live_detail: detail, byz_any, gst, settle_ms: settle }
}

fn restart_node(w: &W, s: usize, init: u64) {
    start(w, s, init);
    // On start the application announces the status following its last block.
    let (st, d) = {
        let mut g = lock(w);
        let d = if g.tape.chance(1, 3) { g.tape.draw(400) as u64 } else { 0 };
        (g.chain.status(init), d)
    };
    send_at(w, s, OverlordMsg::RichStatus(st), 1 + d);
}

/// Application-level synchronization: a node whose application has been behind for a while fetches
/// the missing blocks and tells the engine the latest status.
fn sync(w: &W, now: u64, patience: u64) {
    let mut todo = vec![];
    {
        let mut g = lock(w);
        let top = g.slots.iter().filter(|s| s.alive).map(|s| s.app_height).max().unwrap_or(0);
        let best = g.slots.iter().find(|s| s.alive && s.app_height == top).map(|s| s.committed.clone()).unwrap_or_default();
        let slots = g.slots.len();
        for s in 0..slots {
            let me = g.chain.index_of(&g.slots[s].addr).unwrap();
            let alive = g.slots[s].alive;
            let h = g.slots[s].app_height;
            let cut = with_net(&mut g, |_, n| !n.calm && n.group.iter().any(|x| *x != n.group[me]));
            let patience = if cut { patience * 4 } else { patience };
            let fire = with_net(&mut g, |_, n| {
                if alive && h < top {
                    let e = n.lag.entry(s).or_insert((h, now));
                    if e.0 != h {
                        *e = (h, now);
                    }
                    now - e.1 >= patience
                } else {
                    n.lag.remove(&s);
                    false
                }
            });
            if fire {
                g.slots[s].app_height = top;
                for (k, v) in &best {
                    g.slots[s].committed.entry(*k).or_insert_with(|| v.clone());
                }
                let st = g.chain.status(top + 1);
                with_net(&mut g, |_, n| {
                    n.lag.remove(&s);
                    bump(n, "synced");
                });
                todo.push((s, st));
            }
        }
    }
    for (s, st) in todo {
        deliver(w, s, OverlordMsg::RichStatus(st));
    }
}

/// No two commits of one height differ, across nodes and incarnations.
pub fn check_agreement(w: &World) -> Option<String> {
    let mut seen: HashMap<u64, (Hash, Blk, usize)> = HashMap::new();
    for (i, s) in w.slots.iter().enumerate() {
        for (_, e) in &s.log {
            if let Ev::Commit { h, commit } = e {
                let hash = commit.proof.block_hash.clone();
                match seen.get(h) {
                    None => {
                        seen.insert(*h, (hash, commit.content.clone(), i));
                    }
                    Some((h0, b0, j)) => {
                        if h0 != &hash || b0 != &commit.content {
                            return Some(format!(
                                "height {}: node {} committed {} ({:?}), node {} committed {} ({:?})",
                                h, j, hx(h0), b0, i, hx(&hash), commit.content
                            ));
                        }
                    }
                }
            }
        }
    }
    None
}

/// Fill the counters and the case signature shared by all cluster checks.
pub fn describe(r: &mut CaseResult, o: &Outcome, trace: bool) {
    let mut g = lock(&o.w);
    let mut sig = 0u64;
    let mut commits = 0;
    let mut rounds = 0;
    let mut crashes = 0;
    let mut maxround = 0;
    for s in &g.slots {
        for (_, e) in &s.log {
            match e {
                Ev::Commit { h, commit } => {
                    commits += 1;
                    maxround = maxround.max(commit.proof.round);
                    sig = det::splitmix(sig ^ h ^ (commit.proof.round << 20));
                    for b in commit.proof.block_hash.iter().take(4) {
                        sig = det::splitmix(sig ^ *b as u64);
                    }
                }
                Ev::Crash => crashes += 1,
                Ev::WalSave { rec: Some(rec), .. } if rec.round > 0 && rec.step == S_PROPOSE => rounds += 1,
                _ => {}
            }
            sig = det::splitmix(sig ^ std::mem::discriminant(e).hash_it());
        }
    }
    let nodes = g.slots.len();
    let top = g.slots.iter().map(|s| s.app_height).max().unwrap_or(0);
    r.sig = sig;
    r.tag("commits", commits);
    r.tag("round_changes", rounds);
    r.tag("crashes", crashes);
    r.tag("commit_above_round_0", (maxround > 0) as u64);
    r.tag("commit_above_round_10", (maxround > 10) as u64);
    r.tag("byzantine_present", o.byz_any as u64);
    let (stats, wire_errors) = with_net(&mut g, |_, n| (n.stats.clone(), n.wire_errors.clone()));
    for (k, v) in stats {
        r.tag(&k, v);
    }
    r.nontrivial = commits >= 2 && (rounds > 0 || crashes > 0 || o.byz_any);
    r.sample = format!(
        "{} real nodes, byz={}, weights {:?}, heights reached {}, commits {}, round changes {}, crashes {}, settled {} ms after calm",
        nodes,
        o.byz_any,
        g.chain.epochs[0].list.iter().map(|x| x.2).collect::<Vec<_>>(),
        top,
        commits,
        rounds,
        crashes,
        o.settle_ms
    );
    if let Some(e) = wire_errors.first() {
        r.sample += &format!(" wire error: {}", e);
    }
    if trace {
        r.trace = trace_of(&g);
    }
}

pub trait HashIt {
    fn hash_it(&self) -> u64;
}
impl<T: std::hash::Hash> HashIt for T {
    #[allow(deprecated)]
    fn hash_it(&self) -> u64 {
        use std::hash::Hasher;
        let mut h = std::hash::SipHasher::new_with_keys(1, 2);
        self.hash(&mut h);
        h.finish()
    }
}

pub fn case_agreement(t: &mut Tape, trace: bool) -> CaseResult {
    let p = Profile { byz: true, crashes: true, epochs: false, faults: true, liveness: false, span: 40 };
    let o = simulate(t, p);
    let mut r = CaseResult::default();
    describe(&mut r, &o, trace);
    if let Some(d) = check_agreement(&lock(&o.w)) {
        r.fail("agreement", d);
    }
    r
}

pub fn case_liveness(t: &mut Tape, trace: bool) -> CaseResult {
    let byz = t.chance(1, 2);
    let p = Profile { byz, crashes: true, epochs: t.chance(1, 2), faults: true, liveness: true, span: 30 };
    let o = simulate(t, p);
    let mut r = CaseResult::default();
    describe(&mut r, &o, trace);
    r.tag("settle_intervals", o.settle_ms / 1000);
    if !o.live {
        r.fail("liveness", o.live_detail.clone());
    }
    r
}
