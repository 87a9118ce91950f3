//! C11: leader election and voter lookup. The public functions on generated lists, heights, rounds
//! and bitmaps; a node put into extreme heights and rounds; and node histories, in which every
//! proposal and vote is compared with the leader the public function names. Compiled twice: leaders
//! by rotation (C11), and by weighted lot (C11R, feature `random_leader`).
use crate::det;
use crate::puppet;
use crate::runner::*;
use crate::tape::Tape;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::{extract_voters, get_leader};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const RANDOM: bool = cfg!(feature = "random_leader");

fn node(a: &Address, p: u32, v: u32) -> Node {
    let mut n = Node::new(a.clone());
    n.set_propose_weight(p);
    n.set_vote_weight(v);
    n
}

fn gen_list(t: &mut Tape) -> Vec<Node> {
    let n = match t.weighted(&[6, 2, 1]) {
        0 => 1 + t.draw(8),
        1 => 1 + t.draw(40),
        _ => 1 + t.draw(200),
    } as usize;
    let mut addrs: Vec<Address> = vec![];
    let salt = t.draw(1 << 20);
    let kind = t.draw(4);
    for i in 0..n {
        let h = hash_bytes(&[&salt.to_be_bytes()[..], &(i as u32).to_be_bytes()[..]].concat());
        let a = match kind {
            0 => h.slice(0..20),
            1 => h.slice(0..4 + (h[31] % 20) as usize),
            // a common prefix, one a prefix of another
            2 => Bytes::from(vec![7u8; 1 + i]),
            _ => Bytes::from([&[0xee; 18][..], &(i as u16 ^ (salt as u16)).to_be_bytes()[..]].concat()),
        };
        if !addrs.contains(&a) {
            addrs.push(a);
        }
    }
    let wk = t.draw(4);
    let mut l: Vec<Node> = addrs
        .iter()
        .map(|a| {
            let p = match wk {
                0 => 1,
                1 => t.draw(6),
                2 => t.u32x(),
                _ => u32::MAX - t.draw(2),
            };
            let v = t.u32x();
            node(a, p, v)
        })
        .collect();
    t.shuffle(&mut l);
    if l.iter().all(|n| n.propose_weight == 0) {
        l[0].set_propose_weight(1);
    }
    l
}

fn call(h: u64, r: u64, l: &[Node]) -> Result<Address, String> {
    let v = l.to_vec();
    catch_unwind(AssertUnwindSafe(|| get_leader(h, r, v))).map_err(|_| format!("get_leader({}, {}) panics: {:?}", h, r, panics().last()))
}

fn direct(t: &mut Tape, res: &mut CaseResult) -> Result<(), (&'static str, String)> {
    let l = gen_list(t);
    let n = l.len() as u64;
    let mut sig = det::splitmix(n);
    res.sample = format!("list of {} nodes, announced {:?}", n, l.iter().take(4).map(|x| (hx(&x.address), x.propose_weight, x.vote_weight)).collect::<Vec<_>>());
    let ask = |h: u64, r: u64, l: &[Node]| call(h, r, l).map_err(|e| ("panic", e));
    // membership, determinism, independence of the order
    for _ in 0..6 {
        let (h, r) = (t.u64(), t.u64());
        let a = ask(h, r, &l)?;
        sig = det::splitmix(sig ^ h ^ r.rotate_left(7));
        let Some(x) = l.iter().find(|x| x.address == a) else {
            return Err(("not-member", format!("leader of {} {} is {}, not in the list", h, r, hx(&a))));
        };
        if RANDOM && x.propose_weight == 0 {
            return Err(("no-weight", format!("leader of {} {} is {}, whose propose weight is 0", h, r, hx(&a))));
        }
        let mut o = l.clone();
        t.shuffle(&mut o);
        let b = ask(h, r, &o)?;
        if a != b {
            return Err(("order", format!("leader of {} {} is {} or {} depending on the order of the list", h, r, hx(&a), hx(&b))));
        }
        if ask(h, r, &l)? != a {
            return Err(("not-deterministic", format!("leader of {} {} differs between two calls", h, r)));
        }
    }
    res.tag("lists", 1);
    if !RANDOM {
        // fairness of the rotation
        let span = n - 1;
        let (h, r) = (t.u64(), t.u64());
        let (h0, r0) = (h.min(u64::MAX - span), r.min(u64::MAX - span));
        let mut by_round: HashMap<Address, u64> = HashMap::new();
        let mut by_height: HashMap<Address, u64> = HashMap::new();
        for i in 0..n {
            *by_round.entry(ask(h, r0 + i, &l)?).or_insert(0) += 1;
            *by_height.entry(ask(h0 + i, r, &l)?).or_insert(0) += 1;
        }
        if by_round.len() as u64 != n {
            return Err(("unfair-rounds", format!("{} of {} nodes lead rounds {}.. of height {}", by_round.len(), n, r0, h)));
        }
        if by_height.len() as u64 != n {
            return Err(("unfair-heights", format!("{} of {} nodes lead round {} of heights {}..", by_height.len(), n, r, h0)));
        }
        res.tag("rotations", 1);
    } else {
        // proportion of the lots: consecutive seeds from a random start
        let k = 600u64;
        let sum: u64 = l.iter().map(|x| x.propose_weight as u64).sum();
        let base = t.u64().min(u64::MAX - k);
        let along_height = t.chance(1, 2);
        let other = t.draw(100) as u64;
        let mut c: HashMap<Address, u64> = HashMap::new();
        for i in 0..k {
            let (h, r) = if along_height { (base + i, other) } else { (other, base + i) };
            *c.entry(ask(h, r, &l)?).or_insert(0) += 1;
        }
        for x in &l {
            let p = x.propose_weight as f64 / sum as f64;
            let want = p * k as f64;
            let got = *c.get(&x.address).unwrap_or(&0) as f64;
            let tol = 7.0 * (want * (1.0 - p)).sqrt() + 6.0;
            if (got - want).abs() > tol {
                return Err(("disproportionate", format!("weight {} of {} leads {} of {} rounds, {:.1} expected", x.propose_weight, sum, got, k, want)));
            }
        }
        res.tag("lots", k);
    }
    // voters of a bitmap
    for _ in 0..4 {
        let full = (n as usize + 7) / 8;
        let len = match t.weighted(&[4, 1, 1, 1]) {
            0 => full,
            1 => full + 1 + t.draw(3) as usize,
            2 => full.saturating_sub(1 + t.draw(2) as usize),
            _ => t.draw(40) as usize,
        };
        let bm: Vec<u8> = (0..len).map(|_| t.draw(256) as u8).collect();
        let mut s: Vec<Address> = l.iter().map(|x| x.address.clone()).collect();
        s.sort();
        let want: Vec<Address> = s
            .iter()
            .enumerate()
            .filter(|(i, _)| bm.get(i / 8).map(|b| b & (0x80 >> (i % 8)) != 0).unwrap_or(false))
            .map(|x| x.1.clone())
            .collect();
        let mut v = l.clone();
        t.shuffle(&mut v);
        let b = Bytes::from(bm.clone());
        let got = catch_unwind(AssertUnwindSafe(|| extract_voters(&mut v, &b).map_err(|e| format!("{:?}", e))));
        match got {
            Ok(Ok(g)) if g == want => {}
            Ok(g) => return Err(("voters", format!("bitmap {:?} over {} nodes: {:?}, expected {:?}", bm, n, g.map(|x| x.iter().map(|a| hx(a)).collect::<Vec<_>>()), want.iter().map(|a| hx(a)).collect::<Vec<_>>()))),
            Err(_) => return Err(("panic", format!("extract_voters panics: {:?}", panics().last()))),
        }
        res.tag("bitmaps", 1);
    }
    res.nontrivial = n > 1;
    res.sig = sig;
    Ok(())
}

/// A node taken to an extreme height and round: it proposes exactly if `get_leader` names it, and
/// sends its vote to whomever `get_leader` names.
async fn engine(mut t: Tape, res: &mut CaseResult, trace: bool) -> (Tape, Result<(), (&'static str, String)>) {
    let p = puppet::Prof { ..puppet::BASE };
    let mut chain = puppet::gen_chain(&mut t, &p);
    chain.epochs.truncate(1);
    for x in chain.epochs[0].list.iter_mut() {
        x.1 = if RANDOM { t.u32x() } else { t.draw(3) };
        x.2 = 1;
    }
    if chain.epochs[0].list.iter().all(|x| x.1 == 0) {
        chain.epochs[0].list[0].1 = 1;
    }
    let cap = u64::MAX - 1000;
    let h = t.u64().clamp(1, cap);
    let me = chain.addrs[0].clone();
    let w = new_world(chain.clone(), Tape::fixed(vec![], 0));
    add_slot(&w, me.clone());
    lock(&w).slots[0].app_height = h - 1;
    let by_status = t.chance(1, 2);
    start(&w, 0, if by_status { 0 } else { h });
    if by_status {
        deliver(&w, 0, OverlordMsg::RichStatus(chain.status(h)));
    }
    sleep_ms(2).await;
    let mut r = 0u64;
    let mut err = None;
    let mut jumps = 0;
    let mut led = 0;
    for k in 0..4 {
        if k > 0 || !by_status {
            // on to a later round
            let room = cap - r;
            if room < 3 {
                break;
            }
            let to = r + 1 + t.u64().min(room - 2);
            let others: Vec<Address> = chain.sorted(h).into_iter().map(|x| x.0).filter(|a| a != &me).collect();
            if others.len() * 3 <= chain.n(h) * 2 {
                break;
            }
            let qc = chain.make_choke_qc(h, to - 1, &others);
            let who = t.pick(&others).clone();
            deliver(&w, 0, OverlordMsg::SignedChoke(mk_choke(&who, h, to, UpdateFrom::ChokeQC(qc))));
            sleep_ms(2).await;
            r = to;
            jumps += 1;
        }
        let leader = chain.leader(h, r);
        let outs = |w: &W| -> Vec<(Option<Address>, Msg)> {
            lock(w).slots[0].log.iter().filter_map(|x| if let Ev::Out { to, msg } = &x.1 { Some((to.clone(), msg.clone())) } else { None }).collect()
        };
        let proposed = outs(&w).iter().any(|(to, m)| to.is_none() && matches!(m, OverlordMsg::SignedProposal(p) if p.proposal.height == h && p.proposal.round == r));
        if proposed != (leader == me) {
            err = Some(("engine", format!("height {} round {}: get_leader names {} (self: {}), the node {}", h, r, hx(&leader), leader == me, if proposed { "proposes" } else { "does not propose" })));
            break;
        }
        if leader == me {
            led += 1;
            continue;
        }
        // a proposal by another is not voted on, the leader's is, and the vote goes to the leader
        let b = Blk { height: h, nonce: 77 + r % 1000, proposer: 9, quality: Q_VALID, delay: 0 };
        let fake = chain.sorted(h).into_iter().map(|x| x.0).find(|a| a != &leader);
        if let Some(f) = fake {
            let b2 = Blk { nonce: 5, ..b.clone() };
            deliver(&w, 0, OverlordMsg::SignedProposal(mk_proposal(&f, h, r, &b2, &b2.hash(), None)));
            sleep_ms(1).await;
        }
        let votes = |w: &W| -> Vec<(Option<Address>, SignedVote)> {
            outs(w).into_iter().filter_map(|(to, m)| if let OverlordMsg::SignedVote(v) = m { Some((to, v)) } else { None }).filter(|x| x.1.vote.height == h && x.1.vote.round == r).collect()
        };
        if let Some(v) = votes(&w).first() {
            err = Some(("engine", format!("height {} round {}: votes {} on a proposal of another than the leader", h, r, hx(&v.1.vote.block_hash))));
            break;
        }
        deliver(&w, 0, OverlordMsg::SignedProposal(mk_proposal(&leader, h, r, &b, &b.hash(), None)));
        sleep_ms(1).await;
        match votes(&w).first() {
            None => {
                err = Some(("engine", format!("height {} round {}: no vote on the proposal of {}", h, r, hx(&leader))));
                break;
            }
            Some((to, _)) if to.as_ref() != Some(&leader) => {
                err = Some(("engine", format!("height {} round {}: vote sent to {:?}, leader is {}", h, r, to.as_ref().map(|a| hx(a)), hx(&leader))));
                break;
            }
            _ => {}
        }
    }
    let pan: Vec<String> = panics();
    if err.is_none() && !pan.is_empty() {
        err = Some(("panic", format!("{:?}", pan)));
    }
    res.tag("engine_jumps", jumps);
    res.tag("engine_led", led);
    res.tag("engine_runs", 1);
    res.nontrivial = chain.n(h) > 1;
    res.sig = det::splitmix(h ^ r.rotate_left(9) ^ det::splitmix(chain.n(h) as u64));
    res.sample = format!("node of {} at height {}, {} round changes up to round {}, leads {} of them", chain.n(h), h, jumps, r, led);
    if trace {
        res.trace = trace_of(&lock(&w));
    }
    (t, err.map(Err).unwrap_or(Ok(())))
}

pub fn case(t: &mut Tape, tr: bool) -> CaseResult {
    let mut res = CaseResult::default();
    let e = match t.weighted(&[4, 4, 3, 3]) {
        0 => direct(t, &mut res),
        1 => {
            let tape = std::mem::replace(t, Tape::fixed(vec![], 0));
            let (tt, e) = block_on(engine(tape, &mut res, tr));
            *t = tt;
            e
        }
        k => {
            let u = puppet::run(t, if k == 2 { puppet::BASE } else { puppet::EPOCHS });
            let r = puppet::judge(&u, &["M7-not-leader", "M11-leader", "O8-*"], &["votes_sent|own_proposals"], tr);
            res = r;
            res.tag("histories", 1);
            return res;
        }
    };
    if let Err((rule, d)) = e {
        res.fail(rule, d);
    }
    res
}
