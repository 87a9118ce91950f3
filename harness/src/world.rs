//! The simulated environment of real `Overlord` nodes: keys, blocks, chain configuration, network
//! outlet, write-ahead log, application callbacks, crash points and the event log.
use crate::det;
use crate::tape::Tape;
use async_trait::async_trait;
use bit_vec::BitVec;
use bytes::Bytes;
use creep::Context;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Codec, Consensus, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use std::collections::HashMap;
use std::error::Error;
use std::hash::Hasher;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

pub type BoxErr = Box<dyn Error + Send>;

#[derive(Debug)]
pub struct SimErr(pub &'static str);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Error for SimErr {}
pub fn err(s: &'static str) -> BoxErr {
    Box::new(SimErr(s))
}

// ---------------------------------------------------------------- hashing and signatures

#[allow(deprecated)]
fn sip(tag: u64, parts: &[&[u8]]) -> u64 {
    let mut h = std::hash::SipHasher::new_with_keys(tag, 0x5eed_0000_1234_5678);
    for p in parts {
        h.write_u64(p.len() as u64);
        h.write(p);
    }
    h.finish()
}

pub fn hash_bytes(b: &[u8]) -> Hash {
    let mut v = Vec::with_capacity(32);
    for t in 0..4u64 {
        v.extend_from_slice(&sip(t + 1, &[b]).to_be_bytes());
    }
    Bytes::from(v)
}

fn sig_num(addr: &[u8], hash: &[u8]) -> u128 {
    ((sip(0x51, &[addr, hash]) as u128) << 64) | sip(0x52, &[addr, hash]) as u128
}

pub fn sign_as(addr: &[u8], hash: &[u8]) -> Signature {
    Bytes::from(sig_num(addr, hash).to_be_bytes().to_vec())
}

pub fn agg_sigs(sigs: &[Signature]) -> Option<Signature> {
    let mut s = 0u128;
    for x in sigs {
        let a: [u8; 16] = x.as_ref().try_into().ok()?;
        s = s.wrapping_add(u128::from_be_bytes(a));
    }
    Some(Bytes::from(s.to_be_bytes().to_vec()))
}

pub fn agg_as(addrs: &[Address], hash: &[u8]) -> Signature {
    let v: Vec<_> = addrs.iter().map(|a| sign_as(a, hash)).collect();
    agg_sigs(&v).unwrap()
}

/// Payload hashes, computed by the harness' own encoders (the documented wire format), not by the
/// code under test.
pub fn vote_payload(h: u64, r: u64, t: &VoteType, hash: &Hash) -> Hash {
    let mut s = rlp::RlpStream::new_list(4);
    s.append(&h).append(&r).append(&(if *t == VoteType::Prevote { 1u8 } else { 2u8 })).append(&hash.to_vec());
    hash_bytes(&s.out())
}
pub fn choke_payload(h: u64, r: u64) -> Hash {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    hash_bytes(&s.out())
}
pub fn proposal_payload(p: &Proposal<Blk>) -> Hash {
    hash_bytes(&rlp::encode(p))
}

// ---------------------------------------------------------------- blocks

pub const Q_VALID: u8 = 0;
pub const Q_INVALID: u8 = 1;
/// The first check on each node fails, later ones pass.
pub const Q_FLAKY: u8 = 2;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Blk {
    pub height: u64,
    pub nonce: u64,
    pub proposer: u8,
    pub quality: u8,
    /// How long a block check takes, ms.
    pub delay: u16,
}

impl Blk {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(20);
        v.extend_from_slice(&self.height.to_be_bytes());
        v.extend_from_slice(&self.nonce.to_be_bytes());
        v.push(self.proposer);
        v.push(self.quality);
        v.extend_from_slice(&self.delay.to_be_bytes());
        v
    }
    pub fn hash(&self) -> Hash {
        hash_bytes(&self.bytes())
    }
}

impl Codec for Blk {
    fn encode(&self) -> Result<Bytes, BoxErr> {
        Ok(Bytes::from(self.bytes()))
    }
    fn decode(d: Bytes) -> Result<Self, BoxErr> {
        if d.len() != 20 {
            return Err(err("bad block length"));
        }
        Ok(Blk {
            height: u64::from_be_bytes(d[0..8].try_into().unwrap()),
            nonce: u64::from_be_bytes(d[8..16].try_into().unwrap()),
            proposer: d[16],
            quality: d[17],
            delay: u16::from_be_bytes(d[18..20].try_into().unwrap()),
        })
    }
}

pub type Msg = OverlordMsg<Blk>;

// ---------------------------------------------------------------- chain configuration

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Epoch {
    pub from: u64,
    /// (index into `addrs`, propose weight, vote weight), in announcement order
    pub list: Vec<(usize, u32, u32)>,
    pub interval: u64,
    pub config: Option<DurationConfig>,
    /// Which statuses of the epoch state the interval: 0 all, 1 that of the first height, 2 none.
    pub say: u8,
}

/// Which validators, interval and timer ratios hold at which height; known to the application of
/// every node.
#[derive(Clone, Debug, Default)]
pub struct Chain {
    pub addrs: Vec<Address>,
    pub epochs: Vec<Epoch>,
    pub leaders: std::cell::RefCell<HashMap<(u64, u64), Address>>,
}

impl Chain {
    pub fn epoch(&self, h: u64) -> &Epoch {
        self.epochs.iter().rev().find(|e| e.from <= h).unwrap_or(&self.epochs[0])
    }
    pub fn list(&self, h: u64) -> Vec<Node> {
        self.epoch(h)
            .list
            .iter()
            .map(|(i, p, v)| {
                let mut n = Node::new(self.addrs[*i].clone());
                n.set_propose_weight(*p);
                n.set_vote_weight(*v);
                n
            })
            .collect()
    }
    /// Sorted (address, vote weight).
    pub fn sorted(&self, h: u64) -> Vec<(Address, u64)> {
        let mut v: Vec<_> =
            self.epoch(h).list.iter().map(|(i, _, w)| (self.addrs[*i].clone(), *w as u64)).collect();
        v.sort();
        v
    }
    pub fn total(&self, h: u64) -> u64 {
        self.epoch(h).list.iter().map(|x| x.2 as u64).sum()
    }
    pub fn weight(&self, h: u64, a: &Address) -> u64 {
        self.epoch(h).list.iter().filter(|x| &self.addrs[x.0] == a).map(|x| x.2 as u64).sum()
    }
    pub fn is_member(&self, h: u64, a: &Address) -> bool {
        self.epoch(h).list.iter().any(|x| &self.addrs[x.0] == a)
    }
    pub fn n(&self, h: u64) -> usize {
        self.epoch(h).list.len()
    }
    pub fn interval(&self, h: u64) -> u64 {
        self.epoch(h).interval
    }
    /// The leader the public function names (C11 judges that function itself).
    pub fn leader(&self, h: u64, r: u64) -> Address {
        if let Some(a) = self.leaders.borrow().get(&(h, r)) {
            return a.clone();
        }
        let l = self.list(h);
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| overlord::get_leader(h, r, l)))
            .unwrap_or_else(|_| self.sorted(h)[0].0.clone());
        self.leaders.borrow_mut().insert((h, r), a.clone());
        a
    }
    pub fn index_of(&self, a: &Address) -> Option<usize> {
        self.addrs.iter().position(|x| x == a)
    }
    pub fn status(&self, h: u64) -> Status {
        let e = self.epoch(h);
        let say = e.say == 0 || (e.say == 1 && e.from == h);
        let config = if e.say == 1 && !say { None } else { e.config.clone() };
        Status { height: h, interval: if say { Some(e.interval) } else { None }, timer_config: config, authority_list: self.list(h) }
    }
    pub fn bitmap(&self, h: u64, who: &[Address]) -> Bytes {
        let s = self.sorted(h);
        let mut b = BitVec::from_elem(s.len(), false);
        for (i, x) in s.iter().enumerate() {
            if who.contains(&x.0) {
                b.set(i, true);
            }
        }
        Bytes::from(b.to_bytes())
    }
    /// Independent decoding of a bitmap: most significant bit first, sorted list order.
    pub fn bitmap_members(&self, h: u64, bm: &[u8]) -> Vec<Address> {
        let s = self.sorted(h);
        s.iter()
            .enumerate()
            .filter(|(i, _)| bm.get(i / 8).map(|b| b & (0x80 >> (i % 8)) != 0).unwrap_or(false))
            .map(|(_, x)| x.0.clone())
            .collect()
    }
    pub fn quorum(&self, h: u64, w: u64) -> bool {
        w as u128 * 3 > self.total(h) as u128 * 2
    }
    pub fn weight_of(&self, h: u64, who: &[Address]) -> u64 {
        let mut seen: Vec<&Address> = vec![];
        let mut w = 0;
        for a in who {
            if !seen.contains(&a) {
                seen.push(a);
                w += self.weight(h, a);
            }
        }
        w
    }
    pub fn make_qc(&self, h: u64, r: u64, t: VoteType, hash: &Hash, who: &[Address], leader: &Address) -> AggregatedVote {
        AggregatedVote {
            signature: AggregatedSignature {
                signature: agg_as(who, &vote_payload(h, r, &t, hash)),
                address_bitmap: self.bitmap(h, who),
            },
            vote_type: t,
            height: h,
            round: r,
            block_hash: hash.clone(),
            leader: leader.clone(),
        }
    }
    pub fn make_choke_qc(&self, h: u64, r: u64, who: &[Address]) -> AggregatedChoke {
        AggregatedChoke { height: h, round: r, signature: agg_as(who, &choke_payload(h, r)), voters: who.to_vec() }
    }
    /// Full independent verification of a vote certificate.
    pub fn qc_valid(&self, qc: &AggregatedVote) -> bool {
        let m = self.bitmap_members(qc.height, &qc.signature.address_bitmap);
        self.quorum(qc.height, self.weight_of(qc.height, &m))
            && qc.signature.signature
                == agg_as(&m, &vote_payload(qc.height, qc.round, &qc.vote_type, &qc.block_hash))
    }
    pub fn choke_qc_valid(&self, qc: &AggregatedChoke) -> bool {
        let mut v = qc.voters.clone();
        v.sort();
        v.dedup();
        v.len() == qc.voters.len()
            && v.iter().all(|a| self.is_member(qc.height, a))
            && v.len() * 3 > self.n(qc.height) * 2
            && qc.signature == agg_as(&v, &choke_payload(qc.height, qc.round))
    }
}

pub fn nil() -> Hash {
    Bytes::new()
}

pub fn mock_from() -> UpdateFrom {
    UpdateFrom::PrecommitQC(AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: Bytes::new(),
        leader: Bytes::new(),
    })
}

pub fn mk_vote(voter: &Address, h: u64, r: u64, t: VoteType, hash: &Hash) -> SignedVote {
    SignedVote {
        signature: sign_as(voter, &vote_payload(h, r, &t, hash)),
        vote: Vote { height: h, round: r, vote_type: t, block_hash: hash.clone() },
        voter: voter.clone(),
    }
}

pub fn mk_proposal(who: &Address, h: u64, r: u64, blk: &Blk, hash: &Hash, lock: Option<PoLC>) -> SignedProposal<Blk> {
    let proposal =
        Proposal { height: h, round: r, content: blk.clone(), block_hash: hash.clone(), lock, proposer: who.clone() };
    SignedProposal { signature: sign_as(who, &proposal_payload(&proposal)), proposal }
}

pub fn mk_choke(who: &Address, h: u64, r: u64, from: UpdateFrom) -> SignedChoke {
    SignedChoke { signature: sign_as(who, &choke_payload(h, r)), choke: Choke { height: h, round: r, from }, address: who.clone() }
}

// ---------------------------------------------------------------- log records, decoded independently

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WalRec {
    pub height: u64,
    pub round: u64,
    pub step: u8,
    /// (lock round, certificate, content bytes)
    pub lock: Option<(u64, AggregatedVote, Vec<u8>)>,
    pub from: UpdateFrom,
}

pub const S_PROPOSE: u8 = 0;
pub const S_PREVOTE: u8 = 1;
pub const S_PRECOMMIT: u8 = 2;
pub const S_BRAKE: u8 = 3;
pub const S_COMMIT: u8 = 4;

pub fn decode_wal(b: &[u8]) -> Option<WalRec> {
    let r = rlp::Rlp::new(b);
    if r.item_count().ok()? != 5 {
        return None;
    }
    let l = r.at(3).ok()?;
    let lock = if l.item_count().ok()? == 0 {
        None
    } else {
        let x = l.at(0).ok()?;
        Some((x.val_at(0).ok()?, x.val_at(1).ok()?, x.val_at::<Vec<u8>>(2).ok()?))
    };
    Some(WalRec { height: r.val_at(0).ok()?, round: r.val_at(1).ok()?, step: r.val_at(2).ok()?, lock, from: r.val_at(4).ok()? })
}

pub fn encode_wal(w: &WalRec) -> Bytes {
    let mut s = rlp::RlpStream::new_list(5);
    s.append(&w.height).append(&w.round).append(&w.step);
    match &w.lock {
        None => {
            s.begin_list(0);
        }
        Some((r, qc, c)) => {
            s.begin_list(1);
            s.begin_list(3).append(r).append(qc).append(c);
        }
    }
    s.append(&w.from);
    Bytes::from(s.out().to_vec())
}

// ---------------------------------------------------------------- events

#[derive(Clone, Debug)]
pub enum Ev {
    /// `lost`: the log cannot be read this time.
    Start { init: u64, wal: Option<WalRec>, lost: bool },
    In(Msg),
    Out { to: Option<Address>, msg: Msg },
    WalSave { rec: Option<WalRec>, ok: bool },
    Sign(Vec<u8>),
    GetBlockStart { h: u64 },
    GetBlock { h: u64, res: Option<(Blk, Hash)> },
    CheckStart { h: u64, hash: Hash, blk: Blk },
    CheckDone { h: u64, hash: Hash, blk: Blk, ok: bool },
    Commit { h: u64, commit: Commit<Blk> },
    CommitRet { h: u64, status: Option<Status> },
    Err(String),
    ViewChange { h: u64, r: u64, reason: String },
    Crash,
    Returned,
    Note(String),
}

pub fn hx(b: &[u8]) -> String {
    if b.is_empty() {
        return "nil".into();
    }
    b.iter().take(3).map(|x| format!("{:02x}", x)).collect()
}

fn qc_s(q: &AggregatedVote) -> String {
    format!("{:?}QC({},{},{},bm={:?})", q.vote_type, q.height, q.round, hx(&q.block_hash), q.signature.address_bitmap.as_ref())
}
fn from_s(f: &UpdateFrom) -> String {
    match f {
        UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => qc_s(q),
        UpdateFrom::ChokeQC(c) => format!("ChokeQC({},{},{})", c.height, c.round, c.voters.len()),
    }
}

pub fn msg_s(m: &Msg) -> String {
    match m {
        OverlordMsg::SignedProposal(p) => format!(
            "Proposal({},{},{} by {} content {}/{}{})",
            p.proposal.height,
            p.proposal.round,
            hx(&p.proposal.block_hash),
            hx(&p.proposal.proposer),
            p.proposal.content.nonce,
            p.proposal.content.quality,
            p.proposal.lock.as_ref().map(|l| format!(" lock {} {}", l.lock_round, qc_s(&l.lock_votes))).unwrap_or_default()
        ),
        OverlordMsg::SignedVote(v) => {
            format!("{:?}({},{},{} by {})", v.vote.vote_type, v.vote.height, v.vote.round, hx(&v.vote.block_hash), hx(&v.voter))
        }
        OverlordMsg::AggregatedVote(q) => qc_s(q),
        OverlordMsg::RichStatus(s) => format!("RichStatus({}, n={})", s.height, s.authority_list.len()),
        OverlordMsg::SignedChoke(c) => {
            format!("Choke({},{} by {} from {})", c.choke.height, c.choke.round, hx(&c.address), from_s(&c.choke.from))
        }
        OverlordMsg::Stop => "Stop".into(),
        #[allow(unreachable_patterns)]
        _ => "?".into(),
    }
}

pub fn ev_s(e: &Ev) -> String {
    match e {
        Ev::Start { init, wal, lost } => {
            format!("START init {} wal {}{}", init, wal.as_ref().map(wal_s).unwrap_or("none".into()), if *lost { " UNREADABLE" } else { "" })
        }
        Ev::In(m) => format!("<- {}", msg_s(m)),
        Ev::Out { to, msg } => format!("-> {} {}", to.as_ref().map(|a| hx(a)).unwrap_or("all".into()), msg_s(msg)),
        Ev::WalSave { rec, ok } => format!("   wal {} ok={}", rec.as_ref().map(wal_s).unwrap_or("?".into()), ok),
        Ev::Sign(b) => format!("   sign {} bytes", b.len()),
        Ev::GetBlockStart { h } => format!("   get_block {}?", h),
        Ev::GetBlock { h, res } => format!("   get_block {} {:?}", h, res.as_ref().map(|x| hx(&x.1))),
        Ev::CheckStart { h, hash, .. } => format!("   check {} {}", h, hx(hash)),
        Ev::CheckDone { h, hash, ok, .. } => format!("   checked {} {} {}", h, hx(hash), ok),
        Ev::Commit { h, commit } => {
            format!("   COMMIT {} {} round {}", h, hx(&commit.proof.block_hash), commit.proof.round)
        }
        Ev::CommitRet { h, status } => format!("   commit {} -> {:?}", h, status.as_ref().map(|s| s.height)),
        Ev::Err(s) => format!("   report_error {}", s),
        Ev::ViewChange { h, r, reason } => format!("   view change {} {} {}", h, r, reason),
        Ev::Crash => "CRASH".into(),
        Ev::Returned => "RETURNED".into(),
        Ev::Note(s) => format!("# {}", s),
    }
}

fn wal_s(w: &WalRec) -> String {
    format!(
        "({},{},{}{} from {})",
        w.height,
        w.round,
        ["propose", "prevote", "precommit", "brake", "commit"].get(w.step as usize).unwrap_or(&"?"),
        w.lock.as_ref().map(|l| format!(" lock {} {}", l.0, hx(&l.1.block_hash))).unwrap_or_default(),
        from_s(&w.from)
    )
}

// ---------------------------------------------------------------- node slots

#[derive(Default)]
pub struct Slot {
    pub addr: Address,
    pub inc: u32,
    pub alive: bool,
    pub wal: Option<Bytes>,
    /// Height of the last block the application holds.
    pub app_height: u64,
    pub committed: HashMap<u64, (Hash, Blk)>,
    pub log: Vec<(u64, Ev)>,
    pub handler: Option<OverlordHandler<Blk>>,
    pub gates: u64,
    /// Crash when this many further gates have been passed.
    pub crash_in: Option<u64>,
    pub wal_fail: u32,
    /// The next start cannot read its log (1) or finds it garbled (2).
    pub load_fail: u32,
    load_mode: u32,
    pub get_block_fail: u32,
    pub commit_fail: u32,
    pub check_fail: u32,
    pub net_fail: u32,
    pub sign_fail: u32,
    /// Every block check passes from now on, unless the block is invalid.
    pub calm: bool,
    pub get_block_delay: u64,
    pub commit_delay: u64,
    pub check_delay_max: u64,
    pub checks: HashMap<Hash, u32>,
    pub nonce: u64,
    pub block_quality: u8,
    pub stop_sent: bool,
}

pub type OutFn = fn(&mut World, &Arc<Mutex<World>>, usize, Option<Address>, Msg);

pub struct World {
    pub chain: Chain,
    pub slots: Vec<Slot>,
    pub tape: Tape,
    pub out: Option<OutFn>,
    pub ext: Box<dyn std::any::Any + Send>,
    pub keep_signs: bool,
}

pub type W = Arc<Mutex<World>>;

pub fn lock(w: &W) -> MutexGuard<'_, World> {
    w.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn new_world(chain: Chain, tape: Tape) -> W {
    Arc::new(Mutex::new(World { chain, slots: vec![], tape, out: None, ext: Box::new(()), keep_signs: false }))
}

pub fn add_slot(w: &W, addr: Address) -> usize {
    let mut g = lock(w);
    g.slots.push(Slot { addr, ..Default::default() });
    g.slots.len() - 1
}

pub struct Adapter {
    w: W,
    slot: usize,
    inc: u32,
}

impl Adapter {
    fn live(&self, g: &World) -> bool {
        g.slots[self.slot].alive && g.slots[self.slot].inc == self.inc
    }
    /// A crash point: a node that has crashed never gets past it.
    async fn gate(&self) {
        let t = det::sync_clock();
        let dead = {
            let mut g = lock(&self.w);
            if !self.live(&g) {
                true
            } else {
                let s = &mut g.slots[self.slot];
                s.gates += 1;
                match s.crash_in {
                    Some(0) => {
                        s.crash_in = None;
                        s.alive = false;
                        s.log.push((t, Ev::Crash));
                        true
                    }
                    Some(k) => {
                        s.crash_in = Some(k - 1);
                        false
                    }
                    None => false,
                }
            }
        };
        if dead {
            futures::future::pending::<()>().await
        }
    }
    fn log(&self, e: Ev) {
        let t = det::sync_clock();
        let mut g = lock(&self.w);
        if self.live(&g) {
            g.slots[self.slot].log.push((t, e));
        }
    }
    fn with<R>(&self, f: impl FnOnce(&mut Slot) -> R) -> R {
        f(&mut lock(&self.w).slots[self.slot])
    }
}

fn take(x: &mut u32) -> bool {
    if *x > 0 {
        *x -= 1;
        true
    } else {
        false
    }
}

#[async_trait]
impl Consensus<Blk> for Adapter {
    async fn get_block(&self, _ctx: Context, height: u64) -> Result<(Blk, Hash), BoxErr> {
        self.gate().await;
        let d = self.with(|s| s.get_block_delay);
        self.log(Ev::GetBlockStart { h: height });
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        let res = {
            let mut g = lock(&self.w);
            let idx = g.chain.index_of(&g.slots[self.slot].addr).unwrap_or(255);
            let s = &mut g.slots[self.slot];
            if take(&mut s.get_block_fail) {
                None
            } else {
                s.nonce += 1;
                let b = Blk {
                    height,
                    nonce: s.nonce | ((self.inc as u64) << 32),
                    proposer: idx as u8,
                    quality: s.block_quality,
                    delay: 0,
                };
                let h = b.hash();
                Some((b, h))
            }
        };
        self.log(Ev::GetBlock { h: height, res: res.clone() });
        self.gate().await;
        res.ok_or_else(|| err("no block"))
    }

    async fn check_block(&self, _ctx: Context, height: u64, hash: Hash, block: Blk) -> Result<(), BoxErr> {
        self.gate().await;
        self.log(Ev::CheckStart { h: height, hash: hash.clone(), blk: block.clone() });
        let (ok, d) = {
            let mut g = lock(&self.w);
            let s = &mut g.slots[self.slot];
            let c = s.checks.entry(hash.clone()).or_insert(0);
            *c += 1;
            let c = *c;
            let mut ok = block.hash() == hash && block.height == height;
            match block.quality {
                Q_VALID => {}
                Q_FLAKY => ok &= c > 1 || s.calm,
                _ => ok = false,
            }
            if take(&mut s.check_fail) {
                ok = false;
            }
            let mut d = block.delay as u64;
            if s.check_delay_max > 0 {
                d += det::splitmix(sip(self.slot as u64, &[&hash]) ^ c as u64) % s.check_delay_max;
            }
            (ok, d)
        };
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        self.gate().await;
        self.log(Ev::CheckDone { h: height, hash, blk: block, ok });
        if ok {
            Ok(())
        } else {
            Err(err("block check failed"))
        }
    }

    async fn commit(&self, _ctx: Context, height: u64, commit: Commit<Blk>) -> Result<Status, BoxErr> {
        self.gate().await;
        self.log(Ev::Commit { h: height, commit: commit.clone() });
        let d = self.with(|s| s.commit_delay);
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
            self.gate().await;
        }
        let st = {
            let mut g = lock(&self.w);
            let st = g.chain.status(height + 1);
            let s = &mut g.slots[self.slot];
            if take(&mut s.commit_fail) {
                None
            } else {
                s.app_height = s.app_height.max(height);
                s.committed.insert(height, (commit.proof.block_hash.clone(), commit.content.clone()));
                Some(st)
            }
        };
        self.gate().await;
        self.log(Ev::CommitRet { h: height, status: st.clone() });
        st.ok_or_else(|| err("commit failed"))
    }

    async fn get_authority_list(&self, _ctx: Context, height: u64) -> Result<Vec<Node>, BoxErr> {
        self.gate().await;
        Ok(lock(&self.w).chain.list(height))
    }

    async fn broadcast_to_other(&self, _ctx: Context, msg: Msg) -> Result<(), BoxErr> {
        self.gate().await;
        if self.with(|s| take(&mut s.net_fail)) {
            self.log(Ev::Note("broadcast failed".into()));
            self.log(Ev::Out { to: None, msg });
            return Err(err("network"));
        }
        self.log(Ev::Out { to: None, msg: msg.clone() });
        {
            let mut g = lock(&self.w);
            if let Some(f) = g.out {
                f(&mut g, &self.w, self.slot, None, msg);
            }
        }
        self.gate().await;
        Ok(())
    }

    async fn transmit_to_relayer(&self, _ctx: Context, addr: Address, msg: Msg) -> Result<(), BoxErr> {
        self.gate().await;
        if self.with(|s| take(&mut s.net_fail)) {
            self.log(Ev::Note("transmit failed".into()));
            self.log(Ev::Out { to: Some(addr), msg });
            return Err(err("network"));
        }
        self.log(Ev::Out { to: Some(addr.clone()), msg: msg.clone() });
        {
            let mut g = lock(&self.w);
            if let Some(f) = g.out {
                f(&mut g, &self.w, self.slot, Some(addr), msg);
            }
        }
        self.gate().await;
        Ok(())
    }

    fn report_error(&self, _ctx: Context, error: ConsensusError) {
        self.log(Ev::Err(format!("{:?}", error)));
    }

    fn report_view_change(&self, _ctx: Context, height: u64, round: u64, reason: ViewChangeReason) {
        self.log(Ev::ViewChange { h: height, r: round, reason: format!("{:?}", reason) });
    }
}

#[async_trait]
impl Wal for Adapter {
    async fn save(&self, info: Bytes) -> Result<(), BoxErr> {
        self.gate().await;
        let rec = decode_wal(&info);
        let ok = {
            let mut g = lock(&self.w);
            let s = &mut g.slots[self.slot];
            if take(&mut s.wal_fail) {
                false
            } else {
                s.wal = Some(info);
                true
            }
        };
        self.log(Ev::WalSave { rec, ok });
        self.gate().await;
        if ok {
            Ok(())
        } else {
            Err(err("wal save failed"))
        }
    }

    async fn load(&self) -> Result<Option<Bytes>, BoxErr> {
        self.gate().await;
        match self.with(|s| (s.load_mode, s.wal.clone())) {
            (1, _) => Err(err("log cannot be read")),
            (2, Some(b)) => Ok(Some(b.slice(0..b.len() - 1))),
            (_, b) => Ok(b),
        }
    }
}

pub struct Keys {
    a: Adapter,
    me: Address,
    pre: Mutex<HashMap<Hash, Vec<u8>>>,
    keep: bool,
}

impl Crypto for Keys {
    fn hash(&self, msg: Bytes) -> Hash {
        det::sync_clock();
        let h = hash_bytes(&msg);
        if self.keep {
            self.pre.lock().unwrap_or_else(|e| e.into_inner()).insert(h.clone(), msg.to_vec());
        }
        h
    }
    fn sign(&self, hash: Hash) -> Result<Signature, BoxErr> {
        if self.keep {
            let p = self.pre.lock().unwrap_or_else(|e| e.into_inner()).get(&hash).cloned();
            self.a.log(Ev::Sign(p.unwrap_or_default()));
        }
        if self.a.with(|s| take(&mut s.sign_fail)) {
            return Err(err("no signature"));
        }
        Ok(sign_as(&self.me, &hash))
    }
    fn aggregate_signatures(&self, signatures: Vec<Signature>, voters: Vec<Address>) -> Result<Signature, BoxErr> {
        if signatures.len() != voters.len() {
            return Err(err("signatures and voters differ in number"));
        }
        agg_sigs(&signatures).ok_or_else(|| err("bad signature"))
    }
    fn verify_signature(&self, signature: Signature, hash: Hash, voter: Address) -> Result<(), BoxErr> {
        if sign_as(&voter, &hash) == signature {
            Ok(())
        } else {
            Err(err("signature mismatch"))
        }
    }
    fn verify_aggregated_signature(&self, s: Signature, hash: Hash, voters: Vec<Address>) -> Result<(), BoxErr> {
        if agg_as(&voters, &hash) == s {
            Ok(())
        } else {
            Err(err("aggregated signature mismatch"))
        }
    }
}

/// Start (or restart) the node in a slot, from whatever its write-ahead log holds.
pub fn start(w: &W, slot: usize, init: u64) {
    let t = det::sync_clock();
    let (inc, addr, list, interval, config, keep) = {
        let mut g = lock(w);
        let list = g.chain.list(init);
        let e = g.chain.epoch(init).clone();
        let keep = g.keep_signs;
        let s = &mut g.slots[slot];
        s.inc += 1;
        s.alive = true;
        s.crash_in = None;
        s.checks.clear();
        let wal = s.wal.as_ref().and_then(|b| decode_wal(b));
        s.load_mode = std::mem::take(&mut s.load_fail);
        let lost = s.load_mode == 1 || (s.load_mode == 2 && wal.is_some());
        s.log.push((t, Ev::Start { init, wal, lost }));
        (s.inc, s.addr.clone(), list, e.interval, e.config, keep)
    };
    let mk = || Adapter { w: w.clone(), slot, inc };
    let keys = Keys { a: mk(), me: addr.clone(), pre: Mutex::new(HashMap::new()), keep };
    let node = Arc::new(Overlord::new(addr, Arc::new(mk()), Arc::new(keys), Arc::new(mk())));
    lock(w).slots[slot].handler = Some(node.get_handler());
    let done = mk();
    tokio::spawn(async move {
        let _ = node.run(init, interval, list, config).await;
        done.log(Ev::Returned);
    });
}

/// Hand a message to a node's handler now.
pub fn deliver(w: &W, slot: usize, msg: Msg) -> bool {
    let t = det::sync_clock();
    let h = {
        let mut g = lock(w);
        let s = &mut g.slots[slot];
        if !s.alive {
            return false;
        }
        s.log.push((t, Ev::In(msg.clone())));
        s.handler.clone()
    };
    h.map(|h| h.send_msg(Context::new(), msg).is_ok()).unwrap_or(false)
}

pub fn crash(w: &W, slot: usize) {
    let t = det::sync_clock();
    let mut g = lock(w);
    let s = &mut g.slots[slot];
    if s.alive {
        s.alive = false;
        s.log.push((t, Ev::Crash));
    }
}

/// Transport encoding: the repository's own RLP.
pub fn wire(m: &Msg) -> Result<Msg, String> {
    Ok(match m {
        OverlordMsg::SignedProposal(x) => {
            OverlordMsg::SignedProposal(rlp::decode(&rlp::encode(x)).map_err(|e| format!("proposal: {}", e))?)
        }
        OverlordMsg::SignedVote(x) => {
            OverlordMsg::SignedVote(rlp::decode(&rlp::encode(x)).map_err(|e| format!("vote: {}", e))?)
        }
        OverlordMsg::AggregatedVote(x) => {
            OverlordMsg::AggregatedVote(rlp::decode(&rlp::encode(x)).map_err(|e| format!("qc: {}", e))?)
        }
        OverlordMsg::SignedChoke(x) => {
            OverlordMsg::SignedChoke(rlp::decode(&rlp::encode(x)).map_err(|e| format!("choke: {}", e))?)
        }
        o => o.clone(),
    })
}

/// Run a case inside a fresh paused single-threaded runtime.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        // Virtual time moves while the thread is parked; bring the std clock along at once.
        .on_thread_unpark(|| {
            det::sync_clock();
        })
        .build().unwrap();
    let r = rt.block_on(f);
    std::mem::forget(rt);
    r
}

pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
    det::sync_clock();
}

pub fn trace_of(w: &World) -> Vec<String> {
    let mut all: Vec<(u64, usize, usize, String)> = vec![];
    for (i, s) in w.slots.iter().enumerate() {
        for (k, (t, e)) in s.log.iter().enumerate() {
            if let Ev::Sign(_) = e {
                continue;
            }
            all.push((*t, i, k, format!("{:>8} ms [{} {}] {}", t, i, hx(&s.addr), ev_s(e))));
        }
    }
    all.sort();
    all.into_iter().map(|x| x.3).collect()
}

/// Addresses: distinct byte strings of varied length whose order is unrelated to the index.
pub fn gen_addrs(t: &mut Tape, n: usize) -> Vec<Address> {
    let salt = t.draw(1 << 16);
    (0..n)
        .map(|i| {
            let h = hash_bytes(&[salt.to_be_bytes().as_slice(), &[i as u8]].concat());
            let len = if salt % 5 == 4 { 4 + (h[31] % 28) as usize } else { 20 };
            h.slice(0..len)
        })
        .collect()
}

pub fn weights_kind(t: &mut Tape, n: usize) -> Vec<u32> {
    match t.weighted(&[4, 3, 1, 1, 1]) {
        0 => vec![1; n],
        1 => (0..n).map(|_| 1 + t.draw(5)).collect(),
        2 => (0..n).map(|_| u32::MAX - t.draw(3)).collect(),
        3 => (0..n).map(|_| [1u32, 1000, 1_000_000, u32::MAX][t.draw(4) as usize]).collect(),
        _ => (0..n).map(|i| if i == 0 { 1 + t.draw(3 * n as u32) } else { t.draw(4) }).collect(),
    }
}
