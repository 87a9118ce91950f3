//! A scripted environment around one real node, driven through the public API in virtual time.
#![allow(dead_code)]
pub use bytes::Bytes;
pub use overlord::types::*;
pub use overlord::{get_leader, Codec, Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use async_trait::async_trait;
use bit_vec::BitVec;
use overlord::error::ConsensusError;
use std::collections::hash_map::DefaultHasher;
use std::error::Error;
use std::hash::Hasher;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type BoxErr = Box<dyn Error + Send>;
#[derive(Debug)]
struct E(&'static str);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl Error for E {}
fn e(s: &'static str) -> BoxErr {
    Box::new(E(s))
}

fn num(tag: u64, parts: &[&[u8]]) -> u64 {
    let mut h = DefaultHasher::new();
    h.write_u64(tag);
    for p in parts {
        h.write_u64(p.len() as u64);
        h.write(p);
    }
    h.finish()
}
pub fn hash(b: &[u8]) -> Hash {
    let mut v = vec![];
    for t in 0..4 {
        v.extend_from_slice(&num(t, &[b]).to_be_bytes());
    }
    v.into()
}
pub fn sig(addr: &[u8], h: &[u8]) -> Signature {
    num(9, &[addr, h]).to_be_bytes().to_vec().into()
}
pub fn agg(addrs: &[Address], h: &[u8]) -> Signature {
    let s = addrs.iter().fold(0u64, |s, a| s.wrapping_add(num(9, &[a, h])));
    s.to_be_bytes().to_vec().into()
}

/// A block: its bytes; `bad` blocks fail the check, `slow` ones take that many ms to check.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk(pub Vec<u8>);
impl Codec for Blk {
    fn encode(&self) -> Result<Bytes, BoxErr> {
        Ok(self.0.clone().into())
    }
    fn decode(d: Bytes) -> Result<Self, BoxErr> {
        Ok(Blk(d.to_vec()))
    }
}
impl Blk {
    pub fn new(s: &str) -> Self {
        Blk(s.as_bytes().to_vec())
    }
    pub fn hash(&self) -> Hash {
        hash(&self.0)
    }
}
pub type Msg = OverlordMsg<Blk>;

#[derive(Clone, Debug)]
pub enum Ev {
    Bcast(Msg),
    Send(Address, Msg),
    GetBlock(u64),
    Check(u64, Blk),
    Commit(u64, Commit<Blk>),
    Save(Bytes, bool),
    View(u64, u64, String),
    Error(String),
}

pub struct Cfg {
    /// The validators, by vote weight; address of number i is i+1 twenty times.
    pub lists: Box<dyn Fn(u64) -> Vec<Node> + Send + Sync>,
    pub me: usize,
    pub interval: u64,
    pub timer: Option<DurationConfig>,
    /// Interval and ratios which the commit of a height returns.
    pub status: Box<dyn Fn(u64) -> (Option<u64>, Option<DurationConfig>) + Send + Sync>,
    pub check: Box<dyn Fn(u64, &Blk) -> bool + Send + Sync>,
    pub check_ms: Box<dyn Fn(&Blk) -> u64 + Send + Sync>,
    pub commit_ok: Box<dyn Fn(u64) -> bool + Send + Sync>,
    pub commit_ms: u64,
    pub own: Box<dyn Fn(u64) -> Blk + Send + Sync>,
    pub save_ok: Box<dyn Fn(usize) -> bool + Send + Sync>,
    pub load: Option<Bytes>,
    pub init_height: u64,
}
pub fn addr(i: usize) -> Address {
    vec![i as u8 + 1; 20].into()
}
pub fn nodes(weights: &[u32]) -> Vec<Node> {
    (0..weights.len())
        .map(|i| {
            let mut n = Node::new(addr(i));
            n.set_vote_weight(weights[i]);
            n
        })
        .collect()
}
pub fn cfg(weights: &'static [u32], me: usize) -> Cfg {
    Cfg {
        lists: Box::new(move |_| nodes(weights)),
        me,
        interval: 1000,
        timer: None,
        status: Box::new(|_| (None, None)),
        check: Box::new(|_, b| !b.0.starts_with(b"bad")),
        check_ms: Box::new(|b| if b.0.starts_with(b"slow") { 300 } else { 0 }),
        commit_ok: Box::new(|_| true),
        commit_ms: 0,
        own: Box::new(|h| Blk::new(&format!("own{}", h))),
        save_ok: Box::new(|_| true),
        load: None,
        init_height: 0,
    }
}

pub struct App {
    pub cfg: Cfg,
    pub log: Mutex<Vec<(u64, Ev)>>,
    pub start: tokio::time::Instant,
    pub down: Mutex<bool>,
}
impl App {
    fn push(&self, ev: Ev) {
        if !*self.down.lock().unwrap() {
            let t = self.start.elapsed().as_millis() as u64;
            self.log.lock().unwrap().push((t, ev));
        }
    }
}
#[async_trait]
impl Consensus<Blk> for App {
    async fn get_block(&self, _: Context, h: u64) -> Result<(Blk, Hash), BoxErr> {
        self.push(Ev::GetBlock(h));
        let b = (self.cfg.own)(h);
        let k = b.hash();
        Ok((b, k))
    }
    async fn check_block(&self, _: Context, h: u64, _: Hash, b: Blk) -> Result<(), BoxErr> {
        self.push(Ev::Check(h, b.clone()));
        let ms = (self.cfg.check_ms)(&b);
        if ms > 0 {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        if (self.cfg.check)(h, &b) {
            Ok(())
        } else {
            Err(e("bad block"))
        }
    }
    async fn commit(&self, _: Context, h: u64, c: Commit<Blk>) -> Result<Status, BoxErr> {
        self.push(Ev::Commit(h, c));
        if self.cfg.commit_ms > 0 {
            tokio::time::sleep(Duration::from_millis(self.cfg.commit_ms)).await;
        }
        if !(self.cfg.commit_ok)(h) {
            return Err(e("commit failed"));
        }
        let (interval, timer_config) = (self.cfg.status)(h);
        Ok(Status { height: h + 1, interval, timer_config, authority_list: (self.cfg.lists)(h + 1) })
    }
    async fn get_authority_list(&self, _: Context, h: u64) -> Result<Vec<Node>, BoxErr> {
        Ok((self.cfg.lists)(h))
    }
    async fn broadcast_to_other(&self, _: Context, m: Msg) -> Result<(), BoxErr> {
        self.push(Ev::Bcast(m));
        Ok(())
    }
    async fn transmit_to_relayer(&self, _: Context, to: Address, m: Msg) -> Result<(), BoxErr> {
        self.push(Ev::Send(to, m));
        Ok(())
    }
    fn report_error(&self, _: Context, err: ConsensusError) {
        self.push(Ev::Error(format!("{:?}", err)));
    }
    fn report_view_change(&self, _: Context, h: u64, r: u64, why: ViewChangeReason) {
        self.push(Ev::View(h, r, format!("{:?}", why)));
    }
}
#[async_trait]
impl Wal for App {
    async fn save(&self, info: Bytes) -> Result<(), BoxErr> {
        let n = self.log.lock().unwrap().iter().filter(|x| matches!(x.1, Ev::Save(..))).count();
        let ok = (self.cfg.save_ok)(n);
        self.push(Ev::Save(info, ok));
        if ok {
            Ok(())
        } else {
            Err(e("disk"))
        }
    }
    async fn load(&self) -> Result<Option<Bytes>, BoxErr> {
        Ok(self.cfg.load.clone())
    }
}
pub struct Keys(Address);
impl Crypto for Keys {
    fn hash(&self, m: Bytes) -> Hash {
        hash(&m)
    }
    fn sign(&self, h: Hash) -> Result<Signature, BoxErr> {
        Ok(sig(&self.0, &h))
    }
    fn aggregate_signatures(&self, s: Vec<Signature>, _: Vec<Address>) -> Result<Signature, BoxErr> {
        let mut n = 0u64;
        for x in s {
            let a: [u8; 8] = x.as_ref().try_into().map_err(|_| e("sig"))?;
            n = n.wrapping_add(u64::from_be_bytes(a));
        }
        Ok(n.to_be_bytes().to_vec().into())
    }
    fn verify_signature(&self, s: Signature, h: Hash, voter: Address) -> Result<(), BoxErr> {
        if s == sig(&voter, &h) {
            Ok(())
        } else {
            Err(e("signature"))
        }
    }
    fn verify_aggregated_signature(&self, s: Signature, h: Hash, voters: Vec<Address>) -> Result<(), BoxErr> {
        if s == agg(&voters, &h) {
            Ok(())
        } else {
            Err(e("aggregated signature"))
        }
    }
}

pub struct Kit {
    pub app: Arc<App>,
    pub handler: OverlordHandler<Blk>,
    pub done: tokio::task::JoinHandle<()>,
}
/// Starts a node.
pub async fn start(cfg: Cfg) -> Kit {
    let me = addr(cfg.me);
    let (h, int, list, timer) = (cfg.init_height, cfg.interval, (cfg.lists)(cfg.init_height.max(1)), cfg.timer.clone());
    let app = Arc::new(App { cfg, log: Default::default(), start: tokio::time::Instant::now(), down: Default::default() });
    let node = Overlord::new(me.clone(), app.clone(), Arc::new(Keys(me)), app.clone());
    let handler = node.get_handler();
    let done = tokio::spawn(async move {
        node.run(h, int, list, timer).await.unwrap();
    });
    let k = Kit { app, handler, done };
    k.wait(1).await;
    k
}
/// Starts a node and brings it to height 1.
pub async fn start_at_1(cfg: Cfg) -> Kit {
    let k = start(cfg).await;
    k.status(1).await;
    k
}
impl Kit {
    pub async fn wait(&self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        for _ in 0..40 {
            tokio::task::yield_now().await;
        }
    }
    pub async fn send(&self, m: Msg) {
        self.post(m);
        self.wait(1).await;
    }
    pub fn post(&self, m: Msg) {
        let _ = self.handler.send_msg(Context::new(), m);
    }
    pub async fn status(&self, h: u64) {
        self.send(OverlordMsg::RichStatus(Status {
            height: h,
            interval: None,
            timer_config: None,
            authority_list: self.list(h),
        }))
        .await;
    }
    pub fn list(&self, h: u64) -> Vec<Node> {
        (self.app.cfg.lists)(h)
    }
    pub fn now(&self) -> u64 {
        self.app.start.elapsed().as_millis() as u64
    }
    pub fn log(&self) -> Vec<(u64, Ev)> {
        self.app.log.lock().unwrap().clone()
    }
    pub fn dump(&self) {
        for x in self.log() {
            if !matches!(x.1, Ev::Save(..)) {
                eprintln!("{:?}", x);
            }
        }
    }
    pub fn last_save(&self) -> Option<Bytes> {
        self.log().into_iter().rev().find_map(|x| match x.1 {
            Ev::Save(b, true) => Some(b),
            _ => None,
        })
    }
    /// What goes out, in order, with the time.
    pub fn out(&self) -> Vec<(u64, Msg)> {
        self.log()
            .into_iter()
            .filter_map(|x| match x.1 {
                Ev::Bcast(m) | Ev::Send(_, m) => Some((x.0, m)),
                _ => None,
            })
            .collect()
    }
    /// The node's votes: (time, height, round, type, hash).
    pub fn votes(&self, h: u64, r: u64, t: VoteType) -> Vec<(u64, Hash)> {
        self.out()
            .into_iter()
            .filter_map(|(at, m)| match m {
                OverlordMsg::SignedVote(v)
                    if v.vote.height == h && v.vote.round == r && v.vote.vote_type == t =>
                {
                    Some((at, v.vote.block_hash))
                }
                _ => None,
            })
            .collect()
    }
    pub fn prevotes(&self, h: u64, r: u64) -> Vec<Hash> {
        self.votes(h, r, VoteType::Prevote).into_iter().map(|x| x.1).collect()
    }
    pub fn precommits(&self, h: u64, r: u64) -> Vec<Hash> {
        self.votes(h, r, VoteType::Precommit).into_iter().map(|x| x.1).collect()
    }
    pub fn qcs(&self) -> Vec<AggregatedVote> {
        self.out().into_iter().filter_map(|(_, m)| if let OverlordMsg::AggregatedVote(q) = m { Some(q) } else { None }).collect()
    }
    pub fn proposals(&self) -> Vec<(u64, Proposal<Blk>)> {
        self.out().into_iter().filter_map(|(t, m)| if let OverlordMsg::SignedProposal(q) = m { Some((t, q.proposal)) } else { None }).collect()
    }
    pub fn chokes(&self) -> Vec<(u64, SignedChoke)> {
        self.out().into_iter().filter_map(|(t, m)| if let OverlordMsg::SignedChoke(q) = m { Some((t, q)) } else { None }).collect()
    }
    pub fn commits(&self) -> Vec<(u64, Commit<Blk>)> {
        self.log().into_iter().filter_map(|x| if let Ev::Commit(h, c) = x.1 { Some((h, c)) } else { None }).collect()
    }
    pub fn views(&self) -> Vec<(u64, u64, String)> {
        self.log().into_iter().filter_map(|x| if let Ev::View(h, r, s) = x.1 { Some((h, r, s)) } else { None }).collect()
    }
    pub fn leader(&self, h: u64, r: u64) -> usize {
        who(&get_leader(h, r, self.list(h)))
    }
    pub fn proposal(&self, h: u64, r: u64, b: &Blk, lock: Option<PoLC>) -> Msg {
        proposal(&self.list(h), h, r, b, lock)
    }
    pub fn qc(&self, t: VoteType, h: u64, r: u64, k: &Hash, voters: &[usize]) -> AggregatedVote {
        qc(&self.list(h), t, h, r, k, voters)
    }
    pub fn prevote_qc(&self, h: u64, r: u64, k: &Hash, voters: &[usize]) -> Msg {
        OverlordMsg::AggregatedVote(self.qc(VoteType::Prevote, h, r, k, voters))
    }
    pub fn precommit_qc(&self, h: u64, r: u64, k: &Hash, voters: &[usize]) -> Msg {
        OverlordMsg::AggregatedVote(self.qc(VoteType::Precommit, h, r, k, voters))
    }
    pub fn polc(&self, h: u64, r: u64, k: &Hash, voters: &[usize]) -> Option<PoLC> {
        Some(PoLC { lock_round: r, lock_votes: self.qc(VoteType::Prevote, h, r, k, voters) })
    }
}
pub fn who(a: &Address) -> usize {
    a[0] as usize - 1
}
pub fn proposal(list: &[Node], h: u64, r: u64, b: &Blk, lock: Option<PoLC>) -> Msg {
    let proposer = get_leader(h, r, list.to_vec());
    let p = Proposal { height: h, round: r, content: b.clone(), block_hash: b.hash(), lock, proposer: proposer.clone() };
    OverlordMsg::SignedProposal(SignedProposal { signature: sig(&proposer, &hash(&rlp::encode(&p))), proposal: p })
}
pub fn vote(t: VoteType, i: usize, h: u64, r: u64, k: &Hash) -> Msg {
    let v = Vote { height: h, round: r, vote_type: t, block_hash: k.clone() };
    OverlordMsg::SignedVote(SignedVote { signature: sig(&addr(i), &hash(&rlp::encode(&v))), vote: v, voter: addr(i) })
}
pub fn prevote(i: usize, h: u64, r: u64, k: &Hash) -> Msg {
    vote(VoteType::Prevote, i, h, r, k)
}
pub fn precommit(i: usize, h: u64, r: u64, k: &Hash) -> Msg {
    vote(VoteType::Precommit, i, h, r, k)
}
pub fn qc(list: &[Node], t: VoteType, h: u64, r: u64, k: &Hash, voters: &[usize]) -> AggregatedVote {
    let v = Vote { height: h, round: r, vote_type: t.clone(), block_hash: k.clone() };
    let mut l: Vec<Address> = list.iter().map(|n| n.address.clone()).collect();
    l.sort();
    let mut bm = BitVec::from_elem(l.len(), false);
    let mut who = vec![];
    for (i, a) in l.iter().enumerate() {
        if voters.iter().any(|x| addr(*x) == *a) {
            bm.set(i, true);
            who.push(a.clone());
        }
    }
    AggregatedVote {
        signature: AggregatedSignature { signature: agg(&who, &hash(&rlp::encode(&v))), address_bitmap: bm.to_bytes().into() },
        vote_type: t,
        height: h,
        round: r,
        block_hash: k.clone(),
        leader: get_leader(h, r, list.to_vec()),
    }
}
fn choke_hash(h: u64, r: u64) -> Hash {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    hash(&s.out())
}
/// A choke; the reason is only looked at by nodes of lower rounds.
pub fn choke(i: usize, h: u64, r: u64, from: UpdateFrom) -> Msg {
    OverlordMsg::SignedChoke(SignedChoke {
        signature: sig(&addr(i), &choke_hash(h, r)),
        choke: Choke { height: h, round: r, from },
        address: addr(i),
    })
}
pub fn choke_qc(h: u64, r: u64, voters: &[usize]) -> AggregatedChoke {
    let v: Vec<Address> = voters.iter().map(|x| addr(*x)).collect();
    AggregatedChoke { height: h, round: r, signature: agg(&v, &choke_hash(h, r)), voters: v }
}
pub fn no_reason() -> UpdateFrom {
    UpdateFrom::PrecommitQC(AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: Bytes::new(),
        leader: Bytes::new(),
    })
}
pub fn nil() -> Hash {
    Bytes::new()
}

/// Runs a scenario in virtual time; Err (or a panic anywhere) is a failure.
pub fn main_with<F: std::future::Future<Output = Result<(), String>>>(f: F) {
    let panicked = Arc::new(Mutex::new(false));
    let p2 = panicked.clone();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        *p2.lock().unwrap() = true;
        old(i)
    }));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let r = rt.block_on(f);
    drop(rt);
    if *panicked.lock().unwrap() {
        eprintln!("FAILED: panic");
        std::process::exit(1);
    }
    match r {
        Ok(()) => println!("ok"),
        Err(s) => {
            eprintln!("FAILED: {}", s);
            std::process::exit(1);
        }
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
/// A validator which leads none of the rounds below `rounds` of height `h`.
pub fn replica(weights: &[u32], h: u64, rounds: u64) -> usize {
    let l = nodes(weights);
    (0..weights.len()).find(|i| (0..rounds).all(|r| get_leader(h, r, l.clone()) != addr(*i))).unwrap()
}
pub fn leader_of(weights: &[u32], h: u64, r: u64) -> usize {
    who(&get_leader(h, r, nodes(weights)))
}
pub fn others(n: usize, me: usize) -> Vec<usize> {
    (0..n).filter(|x| *x != me).collect()
}
