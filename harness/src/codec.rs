//! C12: encodings. Generated values are encoded and decoded; encodings are compared for distinct
//! values; and mutated encodings, random bytes and random JSON are decoded.
use crate::puppet;
use crate::runner::*;
use crate::tape::Tape;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::{DurationConfig, WalInfo};
use rlp::{Decodable, Encodable};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ values

fn by(t: &mut Tape) -> Bytes {
    Bytes::from(t.bytes(40))
}
fn blk(t: &mut Tape) -> Blk {
    Blk { height: t.u64(), nonce: t.u64(), proposer: t.draw(256) as u8, quality: t.draw(256) as u8, delay: t.draw(65536) as u16 }
}
fn vt(t: &mut Tape) -> VoteType {
    if t.draw(2) == 0 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}
fn agg(t: &mut Tape) -> AggregatedSignature {
    AggregatedSignature { signature: by(t), address_bitmap: by(t) }
}
fn qc(t: &mut Tape) -> AggregatedVote {
    AggregatedVote { signature: agg(t), vote_type: vt(t), height: t.u64(), round: t.u64(), block_hash: by(t), leader: by(t) }
}
fn vote(t: &mut Tape) -> Vote {
    Vote { height: t.u64(), round: t.u64(), vote_type: vt(t), block_hash: by(t) }
}
fn svote(t: &mut Tape) -> SignedVote {
    SignedVote { signature: by(t), vote: vote(t), voter: by(t) }
}
fn polc(t: &mut Tape) -> PoLC {
    PoLC { lock_round: t.u64(), lock_votes: qc(t) }
}
fn opt<T>(t: &mut Tape, f: fn(&mut Tape) -> T) -> Option<T> {
    if t.draw(2) == 0 {
        None
    } else {
        Some(f(t))
    }
}
fn proposal(t: &mut Tape) -> Proposal<Blk> {
    Proposal { height: t.u64(), round: t.u64(), content: blk(t), block_hash: by(t), lock: opt(t, polc), proposer: by(t) }
}
fn sproposal(t: &mut Tape) -> SignedProposal<Blk> {
    SignedProposal { signature: by(t), proposal: proposal(t) }
}
fn proof(t: &mut Tape) -> Proof {
    Proof { height: t.u64(), round: t.u64(), block_hash: by(t), signature: agg(t) }
}
fn commit(t: &mut Tape) -> Commit<Blk> {
    Commit { height: t.u64(), content: blk(t), proof: proof(t) }
}
fn config(t: &mut Tape) -> DurationConfig {
    DurationConfig { propose_ratio: t.u64(), prevote_ratio: t.u64(), precommit_ratio: t.u64(), brake_ratio: t.u64() }
}
fn node(t: &mut Tape) -> Node {
    let mut n = Node::new(by(t));
    n.set_propose_weight(t.u32x());
    n.set_vote_weight(t.u32x());
    n
}
/// An interval of 0 and the default ratios mean "as before" on the wire, like their absence.
fn status(t: &mut Tape) -> Status {
    let interval = opt(t, |t| t.u64()).filter(|x| *x != 0);
    let timer_config = opt(t, config).filter(|c| *c != DurationConfig::default());
    let n = t.draw(6);
    Status { height: t.u64(), interval, timer_config, authority_list: (0..n).map(|_| node(t)).collect() }
}
fn achoke(t: &mut Tape) -> AggregatedChoke {
    let n = t.draw(6);
    AggregatedChoke { height: t.u64(), round: t.u64(), signature: by(t), voters: (0..n).map(|_| by(t)).collect() }
}
fn from(t: &mut Tape) -> UpdateFrom {
    match t.draw(3) {
        0 => UpdateFrom::PrevoteQC(qc(t)),
        1 => UpdateFrom::PrecommitQC(qc(t)),
        _ => UpdateFrom::ChokeQC(achoke(t)),
    }
}
fn choke(t: &mut Tape) -> Choke {
    Choke { height: t.u64(), round: t.u64(), from: from(t) }
}
fn schoke(t: &mut Tape) -> SignedChoke {
    SignedChoke { signature: by(t), choke: choke(t), address: by(t) }
}
fn walrec(t: &mut Tape) -> WalRec {
    let lock = opt(t, |t| (t.u64(), qc(t), blk(t).bytes()));
    WalRec { height: t.u64(), round: t.u64(), step: t.draw(5) as u8, lock, from: from(t) }
}

// ------------------------------------------------------------------ the same value with one field changed

fn cb(t: &mut Tape, b: &mut Bytes) {
    let mut v = b.to_vec();
    match t.draw(4) {
        0 => v.push(0),
        1 if !v.is_empty() => {
            let i = t.draw(v.len() as u32) as usize;
            v[i] ^= 1 << t.draw(8);
        }
        2 if !v.is_empty() => {
            v.pop();
        }
        _ => v.insert(0, 0),
    }
    *b = Bytes::from(v);
}
fn cu(t: &mut Tape, x: &mut u64) {
    *x = match t.draw(4) {
        0 => x.wrapping_add(1),
        1 => *x ^ (1 << t.draw(64)),
        2 => x.wrapping_sub(1),
        _ => !*x,
    };
}
fn cv(x: &mut VoteType) {
    *x = if *x == VoteType::Prevote { VoteType::Precommit } else { VoteType::Prevote };
}
fn cc(t: &mut Tape, b: &mut Blk) {
    match t.draw(3) {
        0 => cu(t, &mut b.height),
        1 => cu(t, &mut b.nonce),
        _ => b.proposer ^= 1,
    }
}
fn c_agg(t: &mut Tape, a: &mut AggregatedSignature) {
    match t.draw(2) {
        0 => cb(t, &mut a.signature),
        _ => cb(t, &mut a.address_bitmap),
    }
}
fn c_qc(t: &mut Tape, q: &mut AggregatedVote) {
    match t.draw(6) {
        0 => c_agg(t, &mut q.signature),
        1 => cv(&mut q.vote_type),
        2 => cu(t, &mut q.height),
        3 => cu(t, &mut q.round),
        4 => cb(t, &mut q.block_hash),
        _ => cb(t, &mut q.leader),
    }
}
fn c_vote(t: &mut Tape, v: &mut Vote) {
    match t.draw(4) {
        0 => cu(t, &mut v.height),
        1 => cu(t, &mut v.round),
        2 => cv(&mut v.vote_type),
        _ => cb(t, &mut v.block_hash),
    }
}
fn c_svote(t: &mut Tape, v: &mut SignedVote) {
    match t.draw(3) {
        0 => cb(t, &mut v.signature),
        1 => cb(t, &mut v.voter),
        _ => c_vote(t, &mut v.vote),
    }
}
fn c_polc(t: &mut Tape, p: &mut PoLC) {
    match t.draw(2) {
        0 => cu(t, &mut p.lock_round),
        _ => c_qc(t, &mut p.lock_votes),
    }
}
fn c_proposal(t: &mut Tape, p: &mut Proposal<Blk>) {
    match t.draw(6) {
        0 => cu(t, &mut p.height),
        1 => cu(t, &mut p.round),
        2 => cc(t, &mut p.content),
        3 => cb(t, &mut p.block_hash),
        4 => cb(t, &mut p.proposer),
        _ => match (&mut p.lock, t.draw(3)) {
            (l @ Some(_), 0) => *l = None,
            (Some(l), _) => c_polc(t, l),
            (l, _) => *l = Some(polc(t)),
        },
    }
}
fn c_sproposal(t: &mut Tape, p: &mut SignedProposal<Blk>) {
    match t.draw(4) {
        0 => cb(t, &mut p.signature),
        _ => c_proposal(t, &mut p.proposal),
    }
}
fn c_proof(t: &mut Tape, p: &mut Proof) {
    match t.draw(4) {
        0 => cu(t, &mut p.height),
        1 => cu(t, &mut p.round),
        2 => cb(t, &mut p.block_hash),
        _ => c_agg(t, &mut p.signature),
    }
}
fn c_commit(t: &mut Tape, c: &mut Commit<Blk>) {
    match t.draw(3) {
        0 => cu(t, &mut c.height),
        1 => cc(t, &mut c.content),
        _ => c_proof(t, &mut c.proof),
    }
}
fn c_config(t: &mut Tape, c: &mut DurationConfig) {
    match t.draw(4) {
        0 => cu(t, &mut c.propose_ratio),
        1 => cu(t, &mut c.prevote_ratio),
        2 => cu(t, &mut c.precommit_ratio),
        _ => cu(t, &mut c.brake_ratio),
    }
}
fn c_node(t: &mut Tape, n: &mut Node) {
    match t.draw(3) {
        0 => cb(t, &mut n.address),
        1 => n.propose_weight ^= 1 << t.draw(32),
        _ => n.vote_weight ^= 1 << t.draw(32),
    }
}
fn c_status(t: &mut Tape, s: &mut Status) {
    match t.draw(5) {
        0 => cu(t, &mut s.height),
        1 => s.interval = if s.interval.is_some() { None } else { Some(1 + t.draw(1000) as u64) },
        2 => match &mut s.timer_config {
            Some(c) => {
                c_config(t, c);
                if *c == DurationConfig::default() {
                    c.brake_ratio ^= 1;
                }
            }
            x => *x = Some(config(t)).filter(|c| *c != DurationConfig::default()),
        },
        3 => match s.authority_list.len() {
            0 => s.authority_list.push(node(t)),
            n => {
                let i = t.draw(n as u32) as usize;
                c_node(t, &mut s.authority_list[i]);
            }
        },
        _ => {
            if s.authority_list.len() > 1 {
                let n = s.authority_list.len() as u32;
                let (i, j) = (t.draw(n) as usize, t.draw(n) as usize);
                s.authority_list.swap(i, j);
            } else {
                s.authority_list.push(node(t));
            }
        }
    }
}
fn c_achoke(t: &mut Tape, c: &mut AggregatedChoke) {
    match t.draw(4) {
        0 => cu(t, &mut c.height),
        1 => cu(t, &mut c.round),
        2 => cb(t, &mut c.signature),
        _ => {
            if c.voters.is_empty() || t.draw(2) == 0 {
                c.voters.push(by(t));
            } else {
                let i = t.draw(c.voters.len() as u32) as usize;
                if t.draw(2) == 0 {
                    c.voters.remove(i);
                } else {
                    cb(t, &mut c.voters[i]);
                }
            }
        }
    }
}
fn c_from(t: &mut Tape, f: &mut UpdateFrom) {
    if t.draw(3) == 0 {
        *f = match f.clone() {
            UpdateFrom::PrevoteQC(q) => UpdateFrom::PrecommitQC(q),
            UpdateFrom::PrecommitQC(q) => UpdateFrom::PrevoteQC(q),
            UpdateFrom::ChokeQC(_) => UpdateFrom::PrevoteQC(qc(t)),
        };
        return;
    }
    match f {
        UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => c_qc(t, q),
        UpdateFrom::ChokeQC(c) => c_achoke(t, c),
    }
}
fn c_choke(t: &mut Tape, c: &mut Choke) {
    match t.draw(3) {
        0 => cu(t, &mut c.height),
        1 => cu(t, &mut c.round),
        _ => c_from(t, &mut c.from),
    }
}
fn c_schoke(t: &mut Tape, c: &mut SignedChoke) {
    match t.draw(3) {
        0 => cb(t, &mut c.signature),
        1 => cb(t, &mut c.address),
        _ => c_choke(t, &mut c.choke),
    }
}

// ------------------------------------------------------------------ RLP trees, for mutations

#[derive(Clone, Debug)]
enum Tree {
    Leaf(Vec<u8>),
    List(Vec<Tree>),
}

fn parse(b: &[u8], pos: &mut usize) -> Option<Tree> {
    let x = *b.get(*pos)? as usize;
    *pos += 1;
    let (list, len) = match x {
        0..=0x7f => return Some(Tree::Leaf(vec![x as u8])),
        0x80..=0xb7 => (false, x - 0x80),
        0xb8..=0xbf | 0xf8..=0xff => {
            let n = if x < 0xc0 { x - 0xb7 } else { x - 0xf7 };
            let mut l = 0usize;
            for _ in 0..n {
                l = (l << 8) | *b.get(*pos)? as usize;
                *pos += 1;
            }
            (x >= 0xc0, l)
        }
        _ => (true, x - 0xc0),
    };
    let end = pos.checked_add(len)?;
    if end > b.len() {
        return None;
    }
    if !list {
        let v = b[*pos..end].to_vec();
        *pos = end;
        return Some(Tree::Leaf(v));
    }
    let mut v = vec![];
    while *pos < end {
        v.push(parse(&b[..end], pos)?);
    }
    Some(Tree::List(v))
}
fn head(out: &mut Vec<u8>, base: u8, len: usize) {
    if len < 56 {
        out.push(base + len as u8);
    } else {
        let l: Vec<u8> = len.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        out.push(base + 55 + l.len() as u8);
        out.extend(l);
    }
}
fn emit(t: &Tree, out: &mut Vec<u8>) {
    match t {
        Tree::Leaf(v) if v.len() == 1 && v[0] < 0x80 => out.push(v[0]),
        Tree::Leaf(v) => {
            head(out, 0x80, v.len());
            out.extend(v);
        }
        Tree::List(v) => {
            let mut b = vec![];
            for x in v {
                emit(x, &mut b);
            }
            head(out, 0xc0, b.len());
            out.extend(b);
        }
    }
}
fn size(t: &Tree) -> u32 {
    1 + match t {
        Tree::Leaf(_) => 0,
        Tree::List(v) => v.iter().map(size).sum(),
    }
}
fn nth(t: &mut Tree, n: &mut u32, f: &mut dyn FnMut(&mut Tree)) {
    if *n == 0 {
        *n = u32::MAX;
        f(t);
        return;
    }
    *n = n.wrapping_sub(1);
    if let Tree::List(v) = t {
        for x in v {
            if *n == u32::MAX {
                return;
            }
            nth(x, n, f);
        }
    }
}
fn mutate_tree(t: &mut Tape, tree: &mut Tree) {
    let mut n = t.draw(size(tree));
    let k = t.draw(9);
    let extra = t.bytes(33);
    let small = t.draw(256) as u8;
    let pick = t.draw(1 << 16) as usize;
    nth(tree, &mut n, &mut |x| match (k, &mut *x) {
        (0, Tree::Leaf(v)) => *v = extra.clone(),
        (1, Tree::Leaf(v)) => *v = vec![small],
        (2, Tree::Leaf(v)) => v.insert(0, 0),
        (3, Tree::Leaf(v)) => *v = vec![0xff; 9],
        (4, Tree::Leaf(v)) => *x = Tree::List(vec![Tree::Leaf(v.clone())]),
        (0, Tree::List(v)) if !v.is_empty() => {
            let i = pick % v.len();
            v.remove(i);
        }
        (1, Tree::List(v)) if !v.is_empty() => {
            let i = pick % v.len();
            let c = v[i].clone();
            v.insert(i, c);
        }
        (2, Tree::List(v)) if v.len() > 1 => {
            let i = pick % (v.len() - 1);
            v.swap(i, i + 1);
        }
        (3, Tree::List(v)) => v.clear(),
        (4, Tree::List(v)) => v.push(Tree::Leaf(extra.clone())),
        (5, _) => *x = Tree::Leaf(extra.clone()),
        (6, _) => *x = Tree::List(vec![]),
        (7, Tree::Leaf(v)) if !v.is_empty() => {
            let i = pick % v.len();
            v[i] = small;
        }
        (8, _) => {
            let c = x.clone();
            *x = Tree::List(vec![c; 1 + pick % 3]);
        }
        _ => {}
    });
}
fn mutate_bytes(t: &mut Tape, b: &mut Vec<u8>) {
    for _ in 0..1 + t.draw(3) {
        let n = b.len() as u32;
        match t.draw(6) {
            0 if n > 0 => {
                let i = t.draw(n) as usize;
                b[i] ^= 1 << t.draw(8);
            }
            1 if n > 0 => b.truncate(t.draw(n) as usize),
            2 => b.push(t.draw(256) as u8),
            3 if n > 0 => {
                let i = t.draw(n) as usize;
                b[i] = *t.pick(&[0u8, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xf7, 0xf8, 0xff]);
            }
            4 if n > 0 => {
                let i = t.draw(n) as usize;
                b.insert(i, t.draw(256) as u8);
            }
            _ if n > 0 => {
                let i = t.draw(n) as usize;
                b.remove(i);
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ checks

fn show(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Decode anything: no panic; a decoded value survives another round trip.
fn robust<T: Encodable + Decodable + PartialEq + Debug>(r: &mut CaseResult, name: &'static str, b: &[u8]) {
    let d = catch_unwind(AssertUnwindSafe(|| rlp::decode::<T>(b)));
    match d {
        Err(_) => r.fail("decode-panic", format!("decoding {} from {} panics: {:?}", name, show(b), panics().last())),
        Ok(Err(_)) => r.tag("rejected", 1),
        Ok(Ok(v)) => {
            r.tag("accepted", 1);
            let e = catch_unwind(AssertUnwindSafe(|| {
                let e = rlp::encode(&v).to_vec();
                let w = rlp::decode::<T>(&e);
                (e, w)
            }));
            match e {
                Err(_) => r.fail("decode-panic", format!("re-encoding {} decoded from {} panics", name, show(b))),
                Ok((e, Ok(w))) if w != v => {
                    r.fail("re-encode", format!("{} decoded from {} re-encodes to {} which decodes to {:?}, not {:?}", name, show(b), show(&e), w, v))
                }
                Ok((e, Err(x))) => r.fail("re-encode", format!("{} decoded from {} re-encodes to {} which does not decode: {}", name, show(b), show(&e), x)),
                Ok(_) => {}
            }
        }
    }
}

fn robust_all(r: &mut CaseResult, b: &[u8]) {
    robust::<SignedProposal<Blk>>(r, "SignedProposal", b);
    robust::<Proposal<Blk>>(r, "Proposal", b);
    robust::<PoLC>(r, "PoLC", b);
    robust::<AggregatedSignature>(r, "AggregatedSignature", b);
    robust::<AggregatedVote>(r, "AggregatedVote", b);
    robust::<SignedVote>(r, "SignedVote", b);
    robust::<Vote>(r, "Vote", b);
    robust::<Commit<Blk>>(r, "Commit", b);
    robust::<Proof>(r, "Proof", b);
    robust::<DurationConfig>(r, "DurationConfig", b);
    robust::<Status>(r, "Status", b);
    robust::<Node>(r, "Node", b);
    robust::<UpdateFrom>(r, "UpdateFrom", b);
    robust::<Choke>(r, "Choke", b);
    robust::<SignedChoke>(r, "SignedChoke", b);
    robust::<AggregatedChoke>(r, "AggregatedChoke", b);
    robust::<WalInfo<Blk>>(r, "WalInfo", b);
}

fn round<T: Encodable + Decodable + PartialEq + Debug + Clone>(
    r: &mut CaseResult,
    t: &mut Tape,
    name: &'static str,
    gen: fn(&mut Tape) -> T,
    change: fn(&mut Tape, &mut T),
) -> Vec<u8> {
    let v = gen(t);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let e = rlp::encode(&v).to_vec();
        let d = rlp::decode::<T>(&e);
        (e, d)
    }));
    let e = match res {
        Err(_) => {
            r.fail("decode-panic", format!("round trip of {:?} panics", v));
            return vec![];
        }
        Ok((e, Ok(d))) if d == v => e,
        Ok((e, d)) => {
            r.fail("round-trip", format!("{} {:?} encodes to {} which decodes to {:?}", name, v, show(&e), d));
            e
        }
    };
    let mut w = v.clone();
    change(t, &mut w);
    if w != v {
        let e2 = rlp::encode(&w).to_vec();
        if e2 == e {
            r.fail("injective", format!("{:?} and {:?} have the same encoding {}", v, w, show(&e)));
        }
        match rlp::decode::<T>(&e2) {
            Ok(d) if d == w => {}
            d => r.fail("round-trip", format!("{} {:?} encodes to {} which decodes to {:?}", name, w, show(&e2), d)),
        }
        r.tag("changed", 1);
    }
    r.tag(name, 1);
    e
}

fn json<T: serde::Serialize + serde::de::DeserializeOwned + Debug>(r: &mut CaseResult, t: &mut Tape, v: &T, same: fn(&T, &T) -> bool) {
    r.tag("serde", 1);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let a: T = serde_json::from_str(&s).map_err(|e| format!("{} from {}", e, s))?;
        let b: T = serde_json::from_slice(s.as_bytes()).map_err(|e| format!("{} from {}", e, s))?;
        let val = serde_json::to_value(v).map_err(|e| e.to_string())?;
        let c: T = serde_json::from_value(val.clone()).map_err(|e| format!("{} from a value {}", e, s))?;
        let d: T = serde_json::from_reader(s.as_bytes()).map_err(|e| format!("{} from a reader {}", e, s))?;
        for x in [a, b, c, d] {
            if !same(&x, v) {
                return Err(format!("{} reads back as {:?}", s, x));
            }
        }
        // a format that writes fields by position and names nothing
        let bin = bincode::serialize(v).map_err(|e| format!("bincode: {}", e))?;
        let e: T = bincode::deserialize(&bin).map_err(|e| format!("bincode: {} from {:?}", e, bin))?;
        if !same(&e, v) {
            return Err(format!("{:?} (bincode) reads back as {:?}", bin, e));
        }
        Ok((s, val, bin))
    }));
    let (mut s, val, mut bin) = match res {
        Err(_) => {
            r.fail("serde-panic", format!("serde round trip of {:?} panics", v));
            return;
        }
        Ok(Err(e)) => {
            r.fail("serde-round-trip", format!("{:?}: {}", v, e));
            return;
        }
        Ok(Ok(x)) => x,
    };
    // arbitrary text and values
    let mut val = val;
    for _ in 0..4 {
        mutate_json(t, &mut val);
        let x = val.clone();
        match catch_unwind(AssertUnwindSafe(|| serde_json::from_value::<T>(x))) {
            Err(_) => r.fail("serde-panic", format!("reading {} panics: {:?}", val, panics().last())),
            Ok(Err(_)) => r.tag("serde_rejected", 1),
            Ok(Ok(d)) => {
                r.tag("serde_accepted", 1);
                let back = serde_json::to_string(&d).ok().and_then(|s| serde_json::from_str::<T>(&s).ok());
                if !back.map(|b| same(&b, &d)).unwrap_or(false) {
                    r.fail("serde-round-trip", format!("{} reads as {:?} and does not survive another round", val, d));
                }
            }
        }
    }
    // lengths of 2^32 and more would make the format itself reserve memory
    use bincode::Options;
    mutate_bytes(t, &mut bin);
    let o = bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 16);
    match catch_unwind(AssertUnwindSafe(|| o.deserialize::<T>(&bin))) {
        Err(_) => r.fail("serde-panic", format!("reading {:?} (bincode) panics: {:?}", bin, panics().last())),
        Ok(Err(_)) => r.tag("bincode_rejected", 1),
        Ok(Ok(d)) => {
            r.tag("bincode_accepted", 1);
            let back = bincode::serialize(&d).ok().and_then(|s| bincode::deserialize::<T>(&s).ok());
            if !back.map(|b| same(&b, &d)).unwrap_or(false) {
                r.fail("serde-round-trip", format!("{:?} (bincode) reads as {:?} and does not survive another round", bin, d));
            }
        }
    }
    let mut b = std::mem::take(&mut s).into_bytes();
    mutate_bytes(t, &mut b);
    if catch_unwind(AssertUnwindSafe(|| serde_json::from_slice::<T>(&b).is_ok())).is_err() {
        r.fail("serde-panic", format!("reading {:?} panics: {:?}", String::from_utf8_lossy(&b), panics().last()));
    }
}

fn strings(v: &mut serde_json::Value, out: &mut Vec<*mut serde_json::Value>) {
    let p = v as *mut _;
    match v {
        serde_json::Value::Array(a) => {
            out.push(p);
            a.iter_mut().for_each(|x| strings(x, out));
        }
        serde_json::Value::Object(o) => {
            o.iter_mut().for_each(|(_, x)| strings(x, out));
        }
        _ => out.push(p),
    }
}
fn mutate_json(t: &mut Tape, v: &mut serde_json::Value) {
    let mut all = vec![];
    strings(v, &mut all);
    if all.is_empty() {
        return;
    }
    let i = t.draw(all.len() as u32) as usize;
    let k = t.draw(8);
    // the pointers are disjoint and alive: `v` is borrowed mutably for the whole function
    let x = unsafe { &mut *all[i] };
    *x = match (k, x.as_str()) {
        (0, Some(s)) => serde_json::Value::String(format!("{}0", s)),
        (1, Some(s)) => serde_json::Value::String(s.to_uppercase()),
        (2, Some(_)) => serde_json::Value::String("zz".into()),
        (3, Some(s)) => serde_json::Value::String(format!("{}é", s)),
        (4, Some(s)) => serde_json::Value::String(format!("0x{}", s)),
        (5, _) => serde_json::Value::Null,
        (6, _) => serde_json::Value::from(t.u64()),
        (7, Some(s)) => serde_json::Value::String(format!(" {}", s)),
        (0, None) => serde_json::Value::String("".into()),
        (1, None) => serde_json::Value::from(-1),
        (2, None) => serde_json::Value::Array(vec![]),
        _ => return,
    };
}

#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
struct Hexed {
    #[serde(with = "overlord::serde_hex")]
    b: Bytes,
}

pub fn case(t: &mut Tape, trace: bool) -> CaseResult {
    let mut r = CaseResult::default();
    let kind = t.weighted(&[40, 14, 8, 2]);
    match kind {
        0 => {
            // values, and mutations of their encodings
            let k = t.draw(17);
            let e = match k {
                0 => round(&mut r, t, "Vote", vote, c_vote),
                1 => round(&mut r, t, "SignedVote", svote, c_svote),
                2 => round(&mut r, t, "AggregatedSignature", agg, c_agg),
                3 => round(&mut r, t, "AggregatedVote", qc, c_qc),
                4 => round(&mut r, t, "PoLC", polc, c_polc),
                5 => round(&mut r, t, "Proposal", proposal, c_proposal),
                6 => round(&mut r, t, "SignedProposal", sproposal, c_sproposal),
                7 => round(&mut r, t, "Proof", proof, c_proof),
                8 => round(&mut r, t, "Commit", commit, c_commit),
                9 => round(&mut r, t, "DurationConfig", config, c_config),
                10 => round(&mut r, t, "Node", node, c_node),
                11 => round(&mut r, t, "Status", status, c_status),
                12 => round(&mut r, t, "AggregatedChoke", achoke, c_achoke),
                13 => round(&mut r, t, "UpdateFrom", from, c_from),
                14 => round(&mut r, t, "Choke", choke, c_choke),
                15 => round(&mut r, t, "SignedChoke", schoke, c_schoke),
                _ => {
                    // a log record can only be built from bytes
                    let w = walrec(t);
                    let e = encode_wal(&w).to_vec();
                    match rlp::decode::<WalInfo<Blk>>(&e) {
                        Ok(v) => {
                            r.tag("WalInfo", 1);
                            let e2 = rlp::encode(&v).to_vec();
                            if rlp::decode::<WalInfo<Blk>>(&e2).ok().as_ref() != Some(&v) {
                                r.fail("round-trip", format!("{:?} does not survive its encoding {}", v, show(&e2)));
                            }
                            if decode_wal(&e2).as_ref() != Some(&w) {
                                r.fail("round-trip", format!("record {:?} re-encodes to {}", w, show(&e2)));
                            }
                            let mut f = w.clone();
                            match t.draw(5) {
                                0 => cu(t, &mut f.height),
                                1 => cu(t, &mut f.round),
                                2 => f.step = (f.step + 1) % 5,
                                3 => c_from(t, &mut f.from),
                                _ => match &mut f.lock {
                                    Some(l) => match t.draw(3) {
                                        0 => cu(t, &mut l.0),
                                        1 => c_qc(t, &mut l.1),
                                        _ => {
                                            let i = t.draw(l.2.len() as u32) as usize;
                                            l.2[i] ^= 1;
                                        }
                                    },
                                    l => *l = Some((t.u64(), qc(t), blk(t).bytes())),
                                },
                            }
                            if let Ok(x) = rlp::decode::<WalInfo<Blk>>(&encode_wal(&f)) {
                                if x == v && f != w {
                                    r.fail("injective", format!("records {:?} and {:?} decode to the same value", w, f));
                                }
                                if f != w && rlp::encode(&x).to_vec() == e2 {
                                    r.fail("injective", format!("records {:?} and {:?} encode alike", w, f));
                                }
                            }
                        }
                        Err(x) => r.fail("round-trip", format!("record {:?} encoded as {} does not decode: {}", w, show(&e), x)),
                    }
                    e
                }
            };
            let n = t.draw(6);
            for _ in 0..n {
                let mut b = e.clone();
                if t.draw(3) == 0 {
                    mutate_bytes(t, &mut b);
                } else if let Some(mut tree) = parse(&e, &mut 0) {
                    for _ in 0..1 + t.draw(2) {
                        mutate_tree(t, &mut tree);
                    }
                    b.clear();
                    emit(&tree, &mut b);
                }
                robust_all(&mut r, &b);
            }
        }
        1 => {
            match t.draw(9) {
                0 => {
                    let v = vt(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                1 => {
                    let v = agg(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                2 => {
                    let v = qc(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                3 => {
                    let v = achoke(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                4 => {
                    let v = from(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                5 => {
                    let v = node(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                6 => {
                    let v = config(t);
                    json(&mut r, t, &v, |a, b| a == b)
                }
                7 => {
                    let v = Hexed { b: by(t) };
                    json(&mut r, t, &v, |a, b| a == b)
                }
                _ => {
                    let (a, b) = (t.u64(), t.u64());
                    let v = match t.draw(9) {
                        0 => ViewChangeReason::NoProposalFromNetwork,
                        1 => ViewChangeReason::NoPrevoteQCFromNetwork,
                        2 => ViewChangeReason::NoPrecommitQCFromNetwork,
                        3 => ViewChangeReason::CheckBlockNotPass,
                        4 => ViewChangeReason::UpdateFromHigherPrevoteQC(a, b),
                        5 => ViewChangeReason::UpdateFromHigherPrecommitQC(a, b),
                        6 => ViewChangeReason::UpdateFromHigherChokeQC(a, b),
                        7 => ViewChangeReason::LeaderReceivedVoteBelowThreshold(vt(t)),
                        _ => ViewChangeReason::Others,
                    };
                    json(&mut r, t, &v, |a, b| format!("{:?}", a) == format!("{:?}", b))
                }
            }
        }
        2 => {
            // bytes from nowhere
            let n = 1 + t.draw(4);
            for _ in 0..n {
                let mut b: Vec<u8> = vec![];
                if t.draw(2) == 0 {
                    b = t.bytes(64);
                } else {
                    let d = 1 + t.draw(6);
                    for _ in 0..d {
                        b.push(*t.pick(&[0xc0u8, 0xc1, 0xc6, 0xf7, 0xf8, 0xff, 0x80, 0xb8, 0x01]));
                    }
                    b.extend(t.bytes(8));
                }
                robust_all(&mut r, &b);
                r.tag("random_bytes", 1);
            }
        }
        _ => {
            // what a running node signs and logs
            let u = puppet::run(t, puppet::CRASHES);
            r = puppet::judge(&u, &["M7-signature", "M8-signature", "M11-signature", "M2-record"], &["votes_sent|own_proposals"], trace);
            let g = lock(&u.w);
            let mut n = 0;
            for (_, e) in &g.slots[0].log {
                if let Ev::WalSave { rec: Some(w), ok: true } = e {
                    let b = encode_wal(w);
                    robust::<WalInfo<Blk>>(&mut r, "WalInfo", &b);
                    n += 1;
                }
            }
            r.tag("live_records", n);
            return r;
        }
    }
    r.nontrivial = ["changed", "accepted", "serde", "WalInfo"].iter().any(|k| r.tags.contains_key(*k));
    r.sig = crate::det::splitmix(t.used.iter().fold(kind as u64, |h, x| crate::det::splitmix(h ^ *x as u64)));
    r.sample = format!("{:?}", r.tags);
    r
}
