//! One real node against a generated environment that holds every other key. The environment is
//! kept consistent with the protocol (one possible quorum value per round, byzantine validators
//! below a third), so that every output of the node can be judged by the reference monitor.
use crate::det;
use crate::monitor::*;
use crate::runner::CaseResult;
use crate::tape::Tape;
use crate::world::*;
use overlord::types::*;
use overlord::DurationConfig;
use std::collections::{BTreeMap, HashMap, HashSet};

/// What a check wants to see more of.
#[derive(Clone, Copy, Debug)]
pub struct Prof {
    pub ops: u32,
    pub epochs: bool,
    pub crashes: bool,
    pub wal_fails: bool,
    pub app_fails: bool,
    pub delays: bool,
    pub early: bool,
    /// Weights of the operations, see `op`.
    pub w: [u32; 13],
    /// The most rounds one height is driven through.
    pub max_round: u64,
    /// Never two messages at the same moment.
    pub spread: bool,
}

pub const PROPOSE: usize = 0;
pub const VOTES: usize = 1;
pub const QC: usize = 2;
pub const CHOKES: usize = 3;
pub const TIME: usize = 4;
pub const STATUS: usize = 5;
pub const CRASH: usize = 6;
pub const FAIL: usize = 7;
pub const INVALID: usize = 8;
pub const REPLAY: usize = 9;
pub const ROUND: usize = 10;
pub const FAIL_ROUND: usize = 11;
pub const AHEAD: usize = 12;

pub const BASE: Prof = Prof {
    ops: 40,
    epochs: false,
    crashes: false,
    wal_fails: false,
    app_fails: false,
    delays: false,
    early: false,
    w: [5, 5, 5, 4, 6, 1, 0, 0, 1, 2, 8, 6, 0],
    max_round: 30,
    spread: false,
};

const fn ahead(mut p: Prof) -> Prof {
    p.w[AHEAD] = 5;
    p
}
const fn with(crash: u32, fail: u32, status: u32) -> Prof {
    let mut p = BASE;
    p.w[CRASH] = crash;
    p.w[FAIL] = fail;
    p.w[STATUS] = status;
    p
}
pub const CRASHES: Prof = Prof { crashes: true, ..with(4, 0, 1) };
pub const WALFAIL: Prof = Prof { wal_fails: true, crashes: true, ..with(2, 3, 1) };
pub const APPFAIL: Prof = Prof { app_fails: true, ..with(0, 3, 1) };
pub const DELAYS: Prof = Prof { delays: true, ..with(0, 3, 1) };
pub const EPOCHS: Prof = Prof { epochs: true, ops: 60, ..with(0, 0, 4) };
/// Crashes while the list changes: restarts inside and outside of it.
pub const LEAVERS: Prof = Prof { epochs: true, crashes: true, ops: 60, ..with(3, 0, 4) };
pub const EARLY: Prof = ahead(Prof { early: true, ops: 60, ..BASE });
pub const MIXED: Prof =
    ahead(Prof { crashes: true, wal_fails: true, app_fails: true, delays: true, epochs: true, early: true, ops: 60, ..with(2, 2, 2) });

/// One stimulus, for runs that are repeated.
#[derive(Clone, Debug)]
pub enum Act {
    Deliver(Msg),
    Crash,
    CrashIn(u64),
    Restart(u64),
    AppHeight(u64),
    Fail(u8, u32),
}

pub fn act(w: &W, a: &Act) {
    match a {
        Act::Deliver(m) => {
            deliver(w, 0, m.clone());
        }
        Act::Crash => crash(w, 0),
        Act::CrashIn(k) => lock(w).slots[0].crash_in = Some(*k),
        Act::Restart(h) => start(w, 0, *h),
        Act::AppHeight(h) => lock(w).slots[0].app_height = *h,
        Act::Fail(k, n) => {
            let mut g = lock(w);
            let s = &mut g.slots[0];
            match k {
                0 => s.wal_fail = *n,
                1 => s.get_block_fail = *n,
                2 => s.commit_fail = *n,
                3 => s.check_fail = *n,
                4 => s.net_fail = *n,
                5 => s.get_block_delay = *n as u64,
                6 => s.commit_delay = *n as u64,
                7 => s.check_delay_max = *n as u64,
                9 => s.sign_fail = *n,
                10 => s.crash_in = None,
                11 => s.load_fail = *n,
                _ => s.block_quality = *n as u8,
            }
        }
    }
}

pub struct Pup {
    pub w: W,
    pub t: Tape,
    pub p: Prof,
    pub mon: Mon,
    pub chain: Chain,
    pub me: Address,
    pub now: u64,
    pub script: Vec<(u64, Act)>,
    /// Height and round of the node before each entry of the script, and whether it is sure.
    pub script_pos: Vec<(u64, u64, bool)>,
    pub started: u64,
    pub ended: u64,
    cursor: usize,
    pub byz: Vec<Address>,
    pub pv: HashMap<(u64, u64), Hash>,
    pub pc: HashMap<(u64, u64), Hash>,
    pub blocks: HashMap<u64, Vec<Blk>>,
    pub props: HashMap<(u64, u64), Vec<SignedProposal<Blk>>>,
    pub votes: HashMap<(u64, u64, u8), BTreeMap<Address, Hash>>,
    pub sent: Vec<Msg>,
    pub queue: Vec<Msg>,
    nonce: u64,
    commit_bias: u32,
    pub ops_done: BTreeMap<&'static str, u64>,
    scans: usize,
    pub flips: bool,
}

fn tv(k: u8) -> VoteType {
    if k == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}

pub fn gen_chain(t: &mut Tape, p: &Prof) -> Chain {
    let n = [4usize, 4, 5, 7, 3, 6, 2, 1][t.weighted(&[8, 3, 3, 2, 2, 1, 1, 1])];
    let addrs = gen_addrs(t, n);
    let interval = [1000u64, 500, 300, 3000][t.draw(4) as usize];
    let mut list: Vec<(usize, u32, u32)> = (0..n).map(|i| (i, 1, 1)).collect();
    let reweigh = |t: &mut Tape, list: &mut Vec<(usize, u32, u32)>| {
        if t.chance(1, 2) {
            let ws = weights_kind(t, list.len());
            for (i, x) in list.iter_mut().enumerate() {
                x.2 = ws[i];
            }
            if list.iter().all(|x| x.2 == 0) {
                list[0].2 = 1;
            }
        }
        if t.chance(1, 4) {
            for x in list.iter_mut() {
                x.1 = t.draw(4);
            }
            list[0].1 += 1;
        }
    };
    reweigh(t, &mut list);
    t.shuffle(&mut list);
    let config = |t: &mut Tape| {
        if t.chance(1, 3) {
            Some(DurationConfig::new(3 + t.range(0, 30), 2 + t.range(0, 20), 2 + t.range(0, 15), 1 + t.range(0, 8)))
        } else {
            None
        }
    };
    let c0 = config(t);
    let mut epochs = vec![Epoch { from: 0, list: list.clone(), interval, config: c0, say: 0 }];
    if p.epochs {
        let mut from = 1;
        for _ in 0..1 + t.draw(4) {
            from += 1 + t.draw(3) as u64;
            let mut l = list.clone();
            if n > 2 && t.chance(1, 2) {
                // the node itself may leave
                let k = if t.chance(1, 2) { l.iter().position(|x| x.0 == 0).unwrap() } else { t.draw(n as u32) as usize };
                l.remove(k);
            }
            reweigh(t, &mut l);
            t.shuffle(&mut l);
            if l.iter().all(|x| x.1 == 0) {
                l[0].1 = 1;
            }
            let c = config(t);
            epochs.push(Epoch { from, list: l, interval: [interval, interval / 2, interval * 2][t.draw(3) as usize], config: c, say: [0, 1, 2][t.weighted(&[3, 2, 1])] });
        }
        from += 2;
        epochs.push(Epoch { from, list, interval, config: None, say: [0, 2][t.draw(2) as usize] });
    }
    Chain { addrs, epochs, ..Default::default() }
}

impl Pup {
    pub fn new(mut t: Tape, p: Prof) -> Pup {
        let chain = gen_chain(&mut t, &p);
        let me = chain.addrs[0].clone();
        let w = new_world(chain.clone(), Tape::fixed(vec![], 0));
        lock(&w).keep_signs = true;
        add_slot(&w, me.clone());
        let mut mon = Mon::new(me.clone(), chain.clone());
        mon.exact = !p.delays;
        let mut byz: Vec<Address> = vec![];
        let mut order: Vec<usize> = (1..chain.addrs.len()).collect();
        t.shuffle(&mut order);
        for i in order {
            let mut b = byz.clone();
            b.push(chain.addrs[i].clone());
            let ok = chain.epochs.iter().all(|e| chain.weight_of(e.from, &b) * 3 < chain.total(e.from));
            if ok && t.chance(1, 2) {
                byz = b;
            }
        }
        let commit_bias = [3, 1, 6][t.weighted(&[3, 2, 2])];
        Pup {
            w,
            t,
            p,
            mon,
            chain,
            me,
            now: 0,
            script: vec![],
            script_pos: vec![],
            started: det::now_ms(),
            ended: 0,
            cursor: 0,
            byz,
            pv: HashMap::new(),
            pc: HashMap::new(),
            blocks: HashMap::new(),
            props: HashMap::new(),
            votes: HashMap::new(),
            sent: vec![],
            queue: vec![],
            nonce: 1 << 33,
            commit_bias,
            ops_done: BTreeMap::new(),
            scans: 0,
            flips: false,
        }
    }

    pub fn act(&mut self, a: Act) {
        act(&self.w, &a);
        let m = &self.mon;
        self.script_pos.push((m.h, m.r, m.pos_known && m.alive && m.h == m.model_h && !m.outsider && !m.suspended));
        self.script.push((det::now_ms(), a));
    }

    /// Read the log into the monitor.
    pub fn pump(&mut self) {
        let new: Vec<(u64, Ev)> = {
            let g = lock(&self.w);
            g.slots[0].log[self.cursor..].to_vec()
        };
        self.cursor += new.len();
        for (t, e) in new {
            if let Ev::Out { msg: OverlordMsg::SignedProposal(p), .. } = &e {
                let q = &p.proposal;
                let b = self.blocks.entry(q.height).or_default();
                if !b.contains(&q.content) {
                    b.push(q.content.clone());
                }
                self.props.entry((q.height, q.round)).or_default().push(p.clone());
            }
            self.mon.feed(t, &e);
        }
    }

    pub async fn settle(&mut self) {
        for m in std::mem::take(&mut self.queue) {
            self.act(Act::Deliver(m.clone()));
            if self.sent.len() > 120 {
                self.sent.remove(0);
            }
            self.sent.push(m);
            if self.p.spread {
                self.sleep(4).await;
            }
        }
        self.sleep(1).await;
    }
    pub async fn sleep(&mut self, ms: u64) {
        if ms == 0 {
            return;
        }
        sleep_ms(ms).await;
        self.now += ms;
        self.pump();
        self.mon.settle(det::now_ms());
    }

    fn count(&mut self, k: &'static str) {
        *self.ops_done.entry(k).or_insert(0) += 1;
    }

    // ------------------------------------------------------------ the plan

    pub fn block(&mut self, h: u64) -> Blk {
        self.nonce += 1;
        let quality = [Q_VALID, Q_INVALID, if self.p.spread { Q_INVALID } else { Q_FLAKY }][self.t.weighted(&[12, 1, 1])];
        let delay = if self.p.delays && self.t.chance(1, 3) { self.t.draw(self.chain.interval(h) as u32) as u16 } else { 0 };
        let b = Blk { height: h, nonce: self.nonce, proposer: 200, quality, delay };
        self.blocks.entry(h).or_default().push(b.clone());
        b
    }
    pub fn find(&self, h: u64, hash: &Hash) -> Option<Blk> {
        self.blocks.get(&h).and_then(|v| v.iter().find(|b| &b.hash() == hash).cloned())
    }
    /// The value that may get a prevote quorum in this round.
    fn pv(&mut self, h: u64, r: u64) -> Hash {
        if let Some(x) = self.pv.get(&(h, r)) {
            return x.clone();
        }
        let forced = (0..r).find_map(|q| self.pc.get(&(h, q)).filter(|x| !x.is_empty()).cloned());
        let x = match forced {
            Some(x) => x,
            None => {
                let here: Vec<Hash> = self.props.get(&(h, r)).map(|v| v.iter().map(|p| p.proposal.block_hash.clone()).collect()).unwrap_or_default();
                let known: Vec<Hash> = self.blocks.get(&h).map(|v| v.iter().map(|b| b.hash()).collect()).unwrap_or_default();
                match self.t.weighted(&[10, 3, 2, 1]) {
                    0 if !here.is_empty() => self.t.pick(&here).clone(),
                    0 | 2 if !known.is_empty() => self.t.pick(&known).clone(),
                    3 => self.block(h).hash(),
                    _ => nil(),
                }
            }
        };
        self.pv.insert((h, r), x.clone());
        x
    }
    fn pc(&mut self, h: u64, r: u64) -> Hash {
        if let Some(x) = self.pc.get(&(h, r)) {
            return x.clone();
        }
        let x = self.pv(h, r);
        let other = self.pv.iter().any(|(k, v)| k.0 == h && k.1 > r && v != &x);
        let valid = self.find(h, &x).map(|b| b.quality != Q_INVALID).unwrap_or(false);
        let yes = self.t.chance(self.commit_bias, 8);
        let x = if !x.is_empty() && !other && valid && yes { x } else { nil() };
        self.pc.insert((h, r), x.clone());
        x
    }
    fn plan(&mut self, h: u64, r: u64, k: u8) -> Hash {
        if k == 1 {
            self.pv(h, r)
        } else {
            self.pc(h, r)
        }
    }
    pub fn others(&self, h: u64) -> Vec<Address> {
        self.chain.sorted(h).into_iter().map(|x| x.0).filter(|a| a != &self.me).collect()
    }
    /// What an honest other validator votes, if it may still choose.
    fn vote_of(&mut self, a: &Address, h: u64, r: u64, k: u8) -> Hash {
        if let Some(x) = self.votes.get(&(h, r, k)).and_then(|m| m.get(a)) {
            return x.clone();
        }
        let plan = self.plan(h, r, k);
        let mut x = plan.clone();
        if self.t.chance(1, 6) {
            let known: Vec<Hash> = self.blocks.get(&h).map(|v| v.iter().map(|b| b.hash()).collect()).unwrap_or_default();
            let y = if known.is_empty() || self.t.chance(1, 2) { nil() } else { self.t.pick(&known).clone() };
            // never a quorum for anything that is not planned
            let mut who: Vec<Address> =
                self.votes.get(&(h, r, k)).map(|m| m.iter().filter(|(_, v)| **v == y).map(|(a, _)| a.clone()).collect()).unwrap_or_default();
            who.extend(self.byz.clone());
            who.push(self.me.clone());
            who.push(a.clone());
            let spent: Vec<Address> =
                self.votes.get(&(h, r, k)).map(|m| m.iter().filter(|(_, v)| **v != plan).map(|(a, _)| a.clone()).collect()).unwrap_or_default();
            if !self.chain.quorum(h, self.chain.weight_of(h, &who)) && (self.chain.weight_of(h, &spent) + self.chain.weight(h, a)) * 3 < self.chain.total(h) {
                x = y;
            }
        }
        self.votes.entry((h, r, k)).or_default().insert(a.clone(), x.clone());
        x
    }
    /// Validators that may appear in a certificate for the planned value.
    fn signers(&mut self, h: u64, r: u64, k: u8, x: &Hash) -> Option<Vec<Address>> {
        let mut who = vec![];
        for a in self.others(h) {
            let v = self.votes.get(&(h, r, k)).and_then(|m| m.get(&a).cloned());
            if self.byz.contains(&a) || v.as_ref().map(|v| v == x).unwrap_or(true) {
                who.push(a);
            }
        }
        if self.chain.is_member(h, &self.me) && self.mon.released_vote(h, r, k).as_ref() == Some(x) {
            who.push(self.me.clone());
        }
        self.t.shuffle(&mut who);
        if !self.chain.quorum(h, self.chain.weight_of(h, &who)) {
            return None;
        }
        if self.t.chance(1, 2) {
            // a smallest quorum
            let mut i = 0;
            while i < who.len() {
                let a = who.remove(i);
                if !self.chain.quorum(h, self.chain.weight_of(h, &who)) {
                    who.insert(i, a);
                    i += 1;
                }
            }
        }
        for a in &who {
            if a != &self.me && !self.byz.contains(a) {
                self.votes.entry((h, r, k)).or_default().insert(a.clone(), x.clone());
            }
        }
        Some(who)
    }
    pub fn qc(&mut self, h: u64, r: u64, k: u8) -> Option<AggregatedVote> {
        let x = self.plan(h, r, k);
        let who = self.signers(h, r, k, &x)?;
        let mut l = self.chain.leader(h, r);
        if l == self.me {
            l = self.others(h).first()?.clone();
        }
        Some(self.chain.make_qc(h, r, tv(k), &x, &who, &l))
    }
    fn choke_qc(&mut self, h: u64, r: u64) -> Option<AggregatedChoke> {
        let mut who = self.others(h);
        if self.mon.choked(h, r) {
            who.push(self.me.clone());
        }
        self.t.shuffle(&mut who);
        let n = self.chain.n(h);
        if who.len() * 3 <= n * 2 {
            return None;
        }
        if self.t.chance(1, 2) {
            while (who.len() - 1) * 3 > n * 2 {
                who.pop();
            }
        }
        Some(self.chain.make_choke_qc(h, r, &who))
    }
    /// A valid certificate that ends round `r`.
    fn round_end(&mut self, h: u64, r: u64) -> Option<UpdateFrom> {
        match self.t.weighted(&[3, 2, 2]) {
            0 => self.choke_qc(h, r).map(UpdateFrom::ChokeQC),
            1 => self.qc(h, r, 1).map(UpdateFrom::PrevoteQC),
            _ => {
                if self.pc(h, r).is_empty() {
                    self.qc(h, r, 2).map(UpdateFrom::PrecommitQC)
                } else {
                    self.choke_qc(h, r).map(UpdateFrom::ChokeQC)
                }
            }
        }
    }
    pub fn chokes(&mut self, h: u64, r: u64, at_most: usize) -> Vec<Msg> {
        let mut who = self.others(h);
        self.t.shuffle(&mut who);
        who.truncate(at_most);
        let from = if r == 0 { Some(mock_from()) } else { self.round_end(h, r - 1) };
        let Some(from) = from else { return vec![] };
        let mut v = vec![];
        for a in who {
            let f = if r > 0 && self.t.chance(1, 6) { self.round_end(h, r - 1).unwrap_or(from.clone()) } else { from.clone() };
            v.push(OverlordMsg::SignedChoke(mk_choke(&a, h, r, f)));
        }
        v
    }
    pub fn proposal(&mut self, h: u64, r: u64) -> Option<SignedProposal<Blk>> {
        let leader = self.chain.leader(h, r);
        if leader == self.me {
            return None;
        }
        let old = self.props.get(&(h, r)).cloned().unwrap_or_default();
        if let Some(p) = old.first() {
            if !self.byz.contains(&leader) || self.t.chance(2, 3) {
                return Some(p.clone());
            }
        }
        let mut lock = None;
        let mut blk = None;
        if r > 0 && self.t.chance(1, 2) {
            // with the lock of some earlier round
            let lr = if self.t.chance(2, 3) { r - 1 } else { self.t.draw(r as u32) as u64 };
            let x = self.pv(h, lr);
            if !x.is_empty() {
                if let (Some(q), Some(b)) = (self.qc(h, lr, 1), self.find(h, &x)) {
                    lock = Some(PoLC { lock_round: lr, lock_votes: q });
                    blk = Some(b);
                }
            }
        }
        let forced = (0..r).find_map(|q| self.pc.get(&(h, q)).filter(|x| !x.is_empty()).cloned());
        let planned = self.pv.get(&(h, r)).filter(|x| !x.is_empty()).cloned().or(forced);
        let known = self.blocks.get(&h).cloned().unwrap_or_default();
        if blk.is_none() && self.byz.contains(&leader) && self.t.chance(1, 3) {
            // the hash of a block of this height with another content, or a block of the last height
            let old = self.blocks.get(&(h - 1)).cloned().unwrap_or_default();
            let (b, x) = if !known.is_empty() && (old.is_empty() || self.t.chance(1, 2)) {
                let b = self.t.pick(&known).clone();
                let x = b.hash();
                (Blk { nonce: b.nonce ^ 1 << 50, ..b }, x)
            } else if !old.is_empty() {
                let b = self.t.pick(&old).clone();
                let x = b.hash();
                (b, x)
            } else {
                let b = self.block(h);
                let x = b.hash();
                (b, x)
            };
            let p = mk_proposal(&leader, h, r, &b, &x, None);
            self.props.entry((h, r)).or_default().push(p.clone());
            return Some(p);
        }
        let b = match blk {
            Some(b) => b,
            None => match (planned.and_then(|x| self.find(h, &x)), self.t.weighted(&[6, 2, 2])) {
                (Some(b), 0) | (Some(b), 1) => b,
                (_, 1) if !known.is_empty() => self.t.pick(&known).clone(),
                _ => self.block(h),
            },
        };
        let p = mk_proposal(&leader, h, r, &b, &b.hash(), lock);
        self.props.entry((h, r)).or_default().push(p.clone());
        Some(p)
    }

    // ------------------------------------------------------------ operations

    /// A position to send something for: mostly where the node is.
    fn pos(&mut self) -> (u64, u64) {
        let (h, r) = (self.mon.model_h.max(1), if self.mon.h == self.mon.model_h { self.mon.r } else { 0 });
        let far = if self.p.early { 4 } else { 9 };
        match self.t.weighted(&[far, 2, 1, 1]) {
            0 => (h, r),
            1 => (h, r + 1 + self.t.draw(3) as u64),
            2 => (h, r.saturating_sub(1 + self.t.draw(2) as u64)),
            _ => {
                let hh = h + 1 + self.t.draw(if self.p.early { 5 } else { 2 }) as u64;
                if self.chain.epoch(hh) != self.chain.epoch(h) {
                    (h, r)
                } else {
                    (hh, self.t.draw(3) as u64)
                }
            }
        }
    }

    pub async fn after(&mut self) {
        if self.t.chance(3, 4) {
            self.settle().await;
        }
    }

    /// Wait towards a timeout.
    async fn wait(&mut self) {
        self.settle().await;
        let now = det::now_ms();
        let i = self.mon.interval_now().max(10);
        let ms = match (self.mon.deadline(), self.t.weighted(&[4, 2, 2, 2, 1])) {
            (Some(d), 0) if d >= now => d - now + 1,
            (Some(d), 1) if d > now + 1 => d - now - 1,
            (Some(d), 2) if d > now => d - now,
            (_, 4) => self.t.draw(4 * i as u32) as u64 + 1,
            _ => self.t.draw(i as u32) as u64 + 1,
        };
        self.sleep(ms).await;
    }

    async fn votes_op(&mut self, h: u64, r: u64, k: u8, all: bool) {
        let mut who = self.others(h);
        self.t.shuffle(&mut who);
        if !all {
            let m = 1 + self.t.draw(who.len().max(1) as u32) as usize;
            who.truncate(m);
        }
        for a in who {
            let x = if self.byz.contains(&a) && self.t.chance(1, 3) {
                let known: Vec<Hash> = self.blocks.get(&h).map(|v| v.iter().map(|b| b.hash()).collect()).unwrap_or_default();
                if known.is_empty() || self.t.chance(1, 2) {
                    nil()
                } else {
                    self.t.pick(&known).clone()
                }
            } else {
                self.vote_of(&a, h, r, k)
            };
            self.queue.push(OverlordMsg::SignedVote(mk_vote(&a, h, r, tv(k), &x)));
            if self.t.chance(1, 5) {
                self.settle().await;
            }
        }
    }

    /// A round of the usual course, phase by phase, with pieces missing or out of order.
    pub async fn round(&mut self, skip: u32) {
        let (h, r) = (self.mon.h, self.mon.r);
        if h == 0 || h != self.mon.model_h {
            return self.wait().await;
        }
        let lead = self.chain.leader(h, r) == self.me;
        self.count(if lead { "rounds_led" } else { "rounds_followed" });
        let mut phases: Vec<u8> = vec![0, 1, 2];
        if self.t.chance(1, 6) {
            self.t.shuffle(&mut phases);
        }
        for ph in phases {
            if !self.mon.alive || (self.mon.h, self.mon.r) != (h, r) {
                break;
            }
            if self.t.chance(skip, 10) {
                continue;
            }
            if ph == 0 {
                if !lead {
                    if let Some(p) = self.proposal(h, r) {
                        self.queue.push(OverlordMsg::SignedProposal(p));
                    }
                }
            } else if lead {
                let all = self.t.chance(3, 4);
                self.votes_op(h, r, ph, all).await;
            } else if let Some(q) = self.qc(h, r, ph) {
                self.queue.push(OverlordMsg::AggregatedVote(q));
            }
            self.after().await;
            if self.t.chance(1, 6) {
                self.wait().await;
            }
        }
    }

    /// Much of a round that the node has not reached yet.
    async fn ahead(&mut self) {
        let (h, r) = (self.mon.model_h.max(1), if self.mon.h == self.mon.model_h { self.mon.r } else { 0 });
        // at the very edge of what has to be kept
        let edge = self.t.chance(1, 5);
        let (hh, rr) = if edge {
            match self.t.weighted(&[4, 3, 2]) {
                0 => (h, r + [10, 9, 11][self.t.weighted(&[4, 2, 1])]),
                1 => (h + 1 + self.t.weighted(&[6, 2, 1]) as u64, [10, 9, 11][self.t.weighted(&[3, 4, 1])]),
                _ => (h + [5, 4, 6][self.t.weighted(&[4, 3, 1])], self.t.weighted(&[6, 1]) as u64),
            }
        } else if self.t.chance(2, 3) {
            (h + 1 + self.t.weighted(&[6, 2, 1]) as u64, self.t.weighted(&[6, 2, 1]) as u64)
        } else {
            (h, r + 1 + self.t.weighted(&[4, 2, 1]) as u64)
        };
        if self.chain.epoch(hh) != self.chain.epoch(h) {
            return self.wait().await;
        }
        self.count("op_ahead");
        let lead = self.chain.leader(hh, rr) == self.me;
        let mut phases = [0u8, 1, 2];
        if self.t.chance(1, 3) {
            self.t.shuffle(&mut phases);
        }
        let skip = self.t.draw(4);
        for ph in phases {
            if self.t.chance(skip, 10) {
                continue;
            }
            if ph == 0 {
                if let Some(p) = self.proposal(hh, rr) {
                    self.queue.push(OverlordMsg::SignedProposal(p));
                }
            } else if lead || self.t.chance(1, 4) {
                let all = self.t.chance(3, 4);
                self.votes_op(hh, rr, ph, all).await;
            } else if let Some(q) = self.qc(hh, rr, ph) {
                self.queue.push(OverlordMsg::AggregatedVote(q));
            }
            if self.t.chance(1, 4) {
                self.after().await;
            }
        }
        self.after().await;
        if edge && self.t.chance(3, 4) {
            self.leap(hh, rr).await;
        }
    }
    /// Take the node to a round of this or a later height at once.
    async fn leap(&mut self, h: u64, r: u64) {
        self.settle().await;
        if h > self.mon.model_h {
            self.act(Act::AppHeight(h - 1));
            let st = self.chain.status(h);
            self.queue.push(OverlordMsg::RichStatus(st));
            self.after().await;
            self.settle().await;
        }
        if self.mon.alive && self.mon.h == h && self.mon.r < r {
            let v = self.chokes(h, r - 1, 99);
            self.queue.extend(v);
            self.count("leaps");
            self.after().await;
        }
    }

    async fn fail_round(&mut self) {
        let (h, r) = (self.mon.h, self.mon.r);
        if h == 0 || h != self.mon.model_h || r >= self.p.max_round {
            return self.wait().await;
        }
        match self.t.weighted(&[4, 4, 3, 3]) {
            0 => {
                // silence until the node chokes, then everybody chokes
                for _ in 0..4 {
                    self.settle().await;
                    if self.mon.step == S_BRAKE || (self.mon.h, self.mon.r) != (h, r) || !self.mon.alive {
                        break;
                    }
                    let now = det::now_ms();
                    match self.mon.deadline() {
                        Some(d) if d + 1 > now => self.sleep(d + 1 - now).await,
                        _ => self.sleep(1).await,
                    }
                }
                if (self.mon.h, self.mon.r) == (h, r) {
                    let v = self.chokes(h, r, 99);
                    self.queue.extend(v);
                }
            }
            1 => {
                let v = self.chokes(h, r, 99);
                self.queue.extend(v);
            }
            2 => {
                if self.pc(h, r).is_empty() {
                    if let Some(q) = self.qc(h, r, 2) {
                        self.queue.push(OverlordMsg::AggregatedVote(q));
                    }
                }
            }
            _ => {
                let rr = r + 1 + self.t.draw(3) as u64;
                if self.t.chance(1, 2) {
                    let v = self.chokes(h, rr, 1);
                    self.queue.extend(v);
                } else if let Some(q) = self.qc(h, rr, 1) {
                    self.queue.push(OverlordMsg::AggregatedVote(q));
                }
            }
        }
        self.after().await;
    }

    async fn restart(&mut self) {
        if self.p.epochs {
            // the others went on meanwhile, and the application followed them
            let a = lock(&self.w).slots[0].app_height;
            let next_out = !self.chain.is_member(a + 2, &self.me) && self.chain.is_member(a + 1, &self.me);
            if self.t.chance(1, if next_out { 2 } else { 5 }) {
                let k = 1 + if next_out { 0 } else { self.t.draw(2) as u64 };
                self.act(Act::AppHeight(a + k));
                self.count("restarts_after_others_went_on");
            }
        }
        let init = lock(&self.w).slots[0].app_height + 1;
        let wal = {
            let g = lock(&self.w);
            g.slots[0].wal.as_ref().and_then(|b| decode_wal(b)).map(|w| w.height)
        };
        let lost = self.p.wal_fails && self.t.chance(1, 8);
        if lost {
            let k = 1 + self.t.draw(2);
            self.act(Act::Fail(11, k));
            self.count("restarts_without_log");
        }
        self.act(Act::Restart(init));
        self.count("restarts");
        if lost && self.t.chance(1, 2) {
            self.settle().await;
            if self.t.chance(1, 2) {
                self.round(0).await;
            }
            self.act(Act::AppHeight(init));
            let st = self.chain.status(init + 1);
            self.queue.push(OverlordMsg::RichStatus(st));
        }
        // the application announces its status on start
        if wal != Some(init) || self.t.chance(1, 2) {
            let st = self.chain.status(init);
            if self.t.chance(1, 3) {
                self.settle().await;
            }
            self.queue.push(OverlordMsg::RichStatus(st));
        }
        self.after().await;
    }

    pub async fn op(&mut self) {
        if !self.mon.alive {
            self.queue.clear();
            if self.t.chance(2, 3) {
                self.restart().await;
            } else {
                let d = 1 + self.t.draw(3000) as u64;
                self.sleep(d).await;
            }
            return;
        }
        let mut w = self.p.w;
        if self.mon.outsider {
            w[STATUS] += 10;
        }
        let k = self.t.weighted(&w);
        match k {
            PROPOSE => {
                let (h, r) = self.pos();
                self.count("op_propose");
                if let Some(p) = self.proposal(h, r) {
                    self.queue.push(OverlordMsg::SignedProposal(p));
                }
                self.after().await;
            }
            VOTES => {
                let (h, r) = self.pos();
                self.count("op_votes");
                let k = 1 + self.t.draw(2) as u8;
                let all = self.t.chance(1, 2);
                self.votes_op(h, r, k, all).await;
                self.after().await;
            }
            QC => {
                let (h, r) = self.pos();
                self.count("op_certificate");
                let k = 1 + self.t.draw(2) as u8;
                if let Some(q) = self.qc(h, r, k) {
                    self.queue.push(OverlordMsg::AggregatedVote(q));
                }
                self.after().await;
            }
            CHOKES => {
                let (mut h, r) = self.pos();
                if h > self.mon.model_h {
                    h = self.mon.model_h.max(1);
                }
                self.count("op_chokes");
                let m = 1 + self.t.draw(4) as usize;
                let v = self.chokes(h, r, m);
                self.queue.extend(v);
                self.after().await;
            }
            TIME => {
                self.count("op_time");
                self.wait().await;
            }
            STATUS => {
                self.count("op_status");
                let h = self.mon.model_h;
                let to = match self.t.weighted(&[3, 2, 2, 1]) {
                    0 => h + 1,
                    1 => h,
                    2 => h + 1 + self.t.draw(4) as u64,
                    _ => h.saturating_sub(1).max(1),
                };
                if to > h {
                    // the application has synchronized up to there
                    let a = lock(&self.w).slots[0].app_height.max(to - 1);
                    self.act(Act::AppHeight(a));
                }
                let st = self.chain.status(to);
                self.queue.push(OverlordMsg::RichStatus(st));
                self.after().await;
            }
            CRASH => {
                if self.p.crashes {
                    self.count("op_crash");
                    if self.t.chance(1, 4) {
                        self.act(Act::Crash);
                        self.sleep(1).await;
                    } else {
                        let k = self.t.draw(12) as u64;
                        self.act(Act::CrashIn(k));
                    }
                }
            }
            FAIL => {
                let mut kinds: Vec<u8> = vec![];
                if self.p.wal_fails {
                    kinds.extend([0, 0]);
                }
                if self.p.app_fails {
                    kinds.extend([1, 2, 3, 4, 8]);
                }
                if self.p.delays {
                    kinds.extend([5, 6, 7]);
                }
                if !kinds.is_empty() {
                    self.count("op_fault");
                    let k = *self.t.pick(&kinds);
                    let i = self.mon.interval_now().max(10) as u32;
                    let n = match k {
                        5 | 6 | 7 => {
                            if self.t.chance(1, 3) {
                                0
                            } else {
                                1 + self.t.draw(i)
                            }
                        }
                        8 => [Q_VALID, Q_INVALID, Q_FLAKY][self.t.draw(3) as usize] as u32,
                        _ => 1 + self.t.draw(2),
                    };
                    self.act(Act::Fail(k, n));
                }
            }
            INVALID => {
                self.count("op_invalid");
                if let Some(m) = self.invalid() {
                    self.queue.push(m);
                }
                self.after().await;
            }
            REPLAY => {
                self.count("op_replay");
                if !self.sent.is_empty() {
                    let m = self.t.pick(&self.sent).clone();
                    if !matches!(m, OverlordMsg::RichStatus(_)) {
                        self.queue.push(m);
                    }
                }
                self.after().await;
            }
            ROUND => {
                let skip = [1, 0, 4][self.t.weighted(&[3, 2, 1])];
                self.round(skip).await;
            }
            AHEAD => self.ahead().await,
            _ => {
                self.count("op_fail_round");
                if self.t.chance(1, 2) {
                    // up to a lock
                    let (h, r) = (self.mon.h, self.mon.r);
                    if h > 0 && h == self.mon.model_h {
                        if self.chain.leader(h, r) == self.me {
                            self.settle().await;
                            self.votes_op(h, r, 1, true).await;
                        } else {
                            if let Some(p) = self.proposal(h, r) {
                                self.queue.push(OverlordMsg::SignedProposal(p));
                            }
                            self.after().await;
                            if let Some(q) = self.qc(h, r, 1) {
                                self.queue.push(OverlordMsg::AggregatedVote(q));
                            }
                        }
                        self.after().await;
                    }
                }
                if self.t.chance(1, 3) {
                    self.wait().await;
                }
                self.fail_round().await;
            }
        }
    }

    /// A message that must be rejected or ignored, or one that is only partly right.
    pub fn invalid(&mut self) -> Option<Msg> {
        // Unverifiable messages of a height yet to come are a known finding of their own.
        if !self.mon.pos_known || self.mon.h != self.mon.model_h {
            return None;
        }
        let (h, r) = {
            let (h, r) = (self.mon.model_h.max(1), if self.mon.h == self.mon.model_h { self.mon.r } else { 0 });
            match self.t.weighted(&[5, 2, 1]) {
                0 => (h, r),
                1 => (h, r + 1),
                _ => (h, r.saturating_sub(1)),
            }
        };
        self.invalid_at(h, r)
    }
    pub fn any_hash(&mut self, h: u64) -> Hash {
        let known: Vec<Hash> = self.blocks.get(&h).map(|v| v.iter().map(|b| b.hash()).collect()).unwrap_or_default();
        match self.t.weighted(&[4, 1, 1]) {
            0 if !known.is_empty() => self.t.pick(&known).clone(),
            1 => nil(),
            _ => hash_bytes(&[self.t.draw(256) as u8]),
        }
    }
    /// A certificate that does not verify.
    pub fn bad_qc(&mut self, h: u64, r: u64, k: u8, x: &Hash) -> AggregatedVote {
        let all: Vec<Address> = self.chain.sorted(h).into_iter().map(|x| x.0).collect();
        let mut few = self.others(h);
        self.t.shuffle(&mut few);
        while !few.is_empty() && self.chain.quorum(h, self.chain.weight_of(h, &few)) {
            few.pop();
        }
        let leader = self.chain.leader(h, r);
        let mut q = self.chain.make_qc(h, r, tv(k), x, &few, &leader);
        match self.t.draw(9) {
            0 => {}
            7 | 8 => {
                // too few signers, and bits beyond the list
                let mut b = q.signature.address_bitmap.to_vec();
                if all.len() % 8 != 0 && self.t.chance(1, 2) {
                    let last = b.len() - 1;
                    b[last] |= 0xffu8 >> (all.len() % 8);
                }
                for _ in 0..self.t.draw(4) {
                    b.push([0xff, 0x80, 0x0f][self.t.draw(3) as usize]);
                }
                q.signature.address_bitmap = b.into();
            }
            1 => q.signature.address_bitmap = self.chain.bitmap(h, &all),
            2 => {
                // a quorum by number, each counted by a wrong signature
                q = self.chain.make_qc(h, r, tv(k), x, &all, &leader);
                let mut s = q.signature.signature.to_vec();
                s[3] ^= 1;
                q.signature.signature = s.into();
            }
            3 => {
                // signed as the other kind
                let o = self.chain.make_qc(h, r, tv(3 - k), x, &few, &leader);
                q.signature.signature = o.signature.signature;
                q.signature.address_bitmap = self.chain.bitmap(h, &all);
            }
            4 => {
                // too long a bitmap
                let mut b = self.chain.bitmap(h, &all).to_vec();
                b.push(0xff);
                q.signature.address_bitmap = b.into();
            }
            5 => q.signature.address_bitmap = bytes::Bytes::new(),
            _ => {
                // signatures of another round
                let o = self.chain.make_qc(h, r + 1, tv(k), x, &few, &leader);
                q.signature.signature = o.signature.signature;
                q.signature.address_bitmap = self.chain.bitmap(h, &all);
            }
        }
        q
    }
    fn bad_from(&mut self, h: u64, r: u64) -> UpdateFrom {
        let x = self.any_hash(h);
        match self.t.draw(7) {
            0 => mock_from(),
            1 => UpdateFrom::PrevoteQC(self.bad_qc(h, r.saturating_sub(1), 1, &x)),
            2 => UpdateFrom::PrecommitQC(self.bad_qc(h, r.saturating_sub(1), 2, &nil())),
            3 => UpdateFrom::PrecommitQC(self.bad_qc(h, r, 2, &x)),
            4 => {
                let n = self.chain.n(h);
                let mut who = self.others(h);
                while !who.is_empty() && who.len() * 3 > n * 2 {
                    who.pop();
                }
                UpdateFrom::ChokeQC(self.chain.make_choke_qc(h, r.saturating_sub(1), &who))
            }
            5 => {
                // one voter many times
                let n = self.chain.n(h);
                let who = vec![self.others(h).first().cloned().unwrap_or(self.me.clone()); n];
                UpdateFrom::ChokeQC(self.chain.make_choke_qc(h, r.saturating_sub(1), &who))
            }
            _ => {
                let all: Vec<Address> = self.chain.sorted(h).into_iter().map(|x| x.0).collect();
                let mut c = self.chain.make_choke_qc(h, r.saturating_sub(1), &all[..all.len() / 2]);
                c.voters = all;
                UpdateFrom::ChokeQC(c)
            }
        }
    }
    pub fn invalid_at(&mut self, h: u64, r: u64) -> Option<Msg> {
        let others = self.others(h);
        if others.is_empty() {
            return None;
        }
        let a = self.t.pick(&others).clone();
        let b = self.t.pick(&others).clone();
        let stranger = hash_bytes(&[7, self.t.draw(3) as u8]).slice(0..20);
        let leader = self.chain.leader(h, r);
        match self.t.weighted(&[3, 5, 4, 4]) {
            0 => {
                let x = self.any_hash(h);
                let k = 1 + self.t.draw(2) as u8;
                let mut v = mk_vote(&a, h, r, tv(k), &x);
                match self.t.draw(6) {
                    0 => v = mk_vote(&stranger, h, r, tv(k), &x),
                    1 if a != b => v.voter = b,
                    2 => v.vote.round += 1,
                    3 => v.vote.vote_type = tv(3 - k),
                    4 => v.vote.block_hash = hash_bytes(b"other"),
                    _ => v.signature = sign_as(&a, &hash_bytes(b"x")),
                }
                if vote_ok(&self.chain, &v) {
                    return None;
                }
                Some(OverlordMsg::SignedVote(v))
            }
            1 => {
                if leader == self.me {
                    return None;
                }
                let known = self.blocks.get(&h).cloned().unwrap_or_default();
                let blk = if known.is_empty() || self.t.chance(1, 2) { self.block(h) } else { self.t.pick(&known).clone() };
                let hash = blk.hash();
                let kind = self.t.draw(8);
                let mut p = mk_proposal(&leader, h, r, &blk, &hash, None);
                match kind {
                    0 => p.signature = sign_as(&a, &proposal_payload(&p.proposal)),
                    1 => {
                        // by somebody else
                        let o = if a == leader { b.clone() } else { a.clone() };
                        if o == leader {
                            return None;
                        }
                        p = mk_proposal(&o, h, r, &blk, &hash, None);
                    }
                    2 => p.proposal.content.nonce ^= 1 << 50,
                    3 => p.proposal.round += 1,
                    4 => p.proposal.height -= 1,
                    _ => {
                        // locks that lock nothing
                        let lr = if r > 1 && self.t.chance(1, 2) { self.t.draw(r as u32) as u64 } else { r.saturating_sub(1) };
                        let mut l = PoLC { lock_round: lr, lock_votes: self.bad_qc(h, lr, 1, &hash) };
                        match self.t.draw(12) {
                            0 | 10 | 11 => {}
                            6..=9 if r > 0 => {
                                // right in all but one point
                                let lr = if self.t.chance(1, 2) { r - 1 } else { self.t.draw(r as u32) as u64 };
                                let who: Vec<Address> = self.chain.sorted(h).into_iter().map(|x| x.0).collect();
                                let (mut qh, mut qr, mut k, mut x) = (h, lr, VoteType::Prevote, hash.clone());
                                l.lock_round = lr;
                                match self.t.draw(6) {
                                    0 => qh = h - 1,
                                    1 => qh = h + 1,
                                    2 => qr = lr + 1 + self.t.draw(2) as u64,
                                    3 => qr = self.t.draw(r as u32 + 1) as u64,
                                    4 => k = VoteType::Precommit,
                                    _ => x = self.any_hash(h),
                                }
                                l.lock_votes = self.chain.make_qc(h, qr, k.clone(), &x, &who, &leader);
                                l.lock_votes.height = qh;
                                l.lock_votes.signature.signature = agg_as(&who, &vote_payload(qh, qr, &k, &x));
                            }
                            1 | 2 => {
                                // a genuine certificate, of another block or round or kind
                                let k = 1 + self.t.draw(2) as u8;
                                let q = self.t.draw(r as u32 + 2) as u64;
                                if let Some(c) = self.qc(h, q, k) {
                                    l.lock_votes = c;
                                    l.lock_round = if self.t.chance(1, 2) { q } else { self.t.draw(r as u32 + 2) as u64 };
                                }
                            }
                            3 => {
                                // of this very block, in a round that does not count
                                let x = self.pv(h, r);
                                if let (Some(c), Some(b)) = (self.qc(h, r, 1), self.find(h, &x)) {
                                    l = PoLC { lock_round: r, lock_votes: c };
                                    p = mk_proposal(&leader, h, r, &b, &x, None);
                                }
                            }
                            4 => l.lock_round = r + self.t.draw(3) as u64,
                            _ => {
                                // a genuine quorum for nil
                                if let Some(q) = (0..r).find(|q| self.pv.get(&(h, *q)).map(|x| x.is_empty()).unwrap_or(false)) {
                                    if let Some(c) = self.qc(h, q, 1) {
                                        l = PoLC { lock_round: q, lock_votes: c };
                                    }
                                }
                            }
                        }
                        let q = p.proposal;
                        p = mk_proposal(&leader, h, r, &q.content, &q.block_hash, Some(l));
                    }
                }
                if proposal_ok(&self.chain, &p) {
                    return None;
                }
                Some(OverlordMsg::SignedProposal(p))
            }
            2 => {
                let x = self.any_hash(h);
                let k = 1 + self.t.draw(2) as u8;
                let q = self.bad_qc(h, r, k, &x);
                if self.chain.qc_valid(&q) {
                    return None;
                }
                Some(OverlordMsg::AggregatedVote(q))
            }
            _ => {
                let rr = r + self.t.draw(3) as u64;
                let mut c = match self.t.draw(4) {
                    0 => {
                        let f = self.bad_from(h, rr);
                        mk_choke(&stranger, h, rr, f)
                    }
                    1 => {
                        let f = self.bad_from(h, rr);
                        let mut c = mk_choke(&a, h, rr, f);
                        c.signature = sign_as(&a, &choke_payload(h, rr + 1));
                        c
                    }
                    _ => {
                        let f = self.bad_from(h, r + 1);
                        mk_choke(&a, h, r + 1 + self.t.draw(2) as u64, f)
                    }
                };
                if self.t.chance(1, 8) {
                    c.address = b;
                }
                if c.choke.round == 0 && choke_ok(&self.chain, &c) {
                    return None;
                }
                if choke_ok(&self.chain, &c) && c.choke.round <= r {
                    // counts as a choke whatever it carries
                    return None;
                }
                if from_ok(&self.chain, &c.choke.from, h) {
                    return None;
                }
                Some(OverlordMsg::SignedChoke(c))
            }
        }
    }
}

/// Does the certificate of a choke verify at all?
pub fn from_ok(c: &Chain, f: &UpdateFrom, h: u64) -> bool {
    match f {
        UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => q.height == h && c.qc_valid(q),
        UpdateFrom::ChokeQC(q) => q.height == h && c.choke_qc_valid(q),
    }
}

/// A node at its first height.
pub async fn begin(t: Tape, p: Prof) -> Pup {
    let mut u = Pup::new(t, p);
    let first = if u.t.chance(1, 5) { 2 + u.t.draw(6) as u64 } else { 1 };
    u.act(Act::AppHeight(first - 1));
    let init = if u.t.chance(1, 3) && u.chain.is_member(first, &u.me) { first } else { 0 };
    u.act(Act::Restart(init));
    if u.t.chance(1, 2) {
        u.settle().await;
    }
    u.queue.push(OverlordMsg::RichStatus(u.chain.status(first)));
    u.after().await;
    u
}

pub async fn drive(t: Tape, p: Prof) -> Pup {
    let mut u = begin(t, p).await;
    let n = 6 + u.t.draw(u.p.ops);
    for _ in 0..n {
        u.op().await;
        if u.t.used.len() > 60_000 {
            break;
        }
    }
    u.settle().await;
    u.settle().await;
    u.ended = det::now_ms();
    u
}

pub fn run(t: &mut Tape, p: Prof) -> Pup {
    let tape = std::mem::replace(t, Tape::fixed(vec![], 0));
    let mut u = block_on(drive(tape, p));
    *t = std::mem::replace(&mut u.t, Tape::fixed(vec![], 0));
    u
}

/// Judge a finished run by the rules of one property.
pub fn judge(u: &Pup, rules: &[&str], need: &[&str], trace: bool) -> CaseResult {
    let mut r = CaseResult::default();
    for v in &u.mon.v {
        if rules.iter().any(|x| v.rule == *x || (x.ends_with('*') && v.rule.starts_with(&x[..x.len() - 1]))) {
            r.fail(v.rule, format!("{} [at {} ms]", v.detail, v.t));
        }
    }
    for (k, v) in &u.mon.cov {
        r.tag(k, *v);
    }
    for (k, v) in &u.ops_done {
        r.tag(k, *v);
    }
    // every entry of `need` must have happened; alternatives in an entry are separated by '|'
    r.nontrivial = need
        .iter()
        .all(|e| e.split('|').any(|k| u.mon.cov.get(k).copied().unwrap_or(0) > 0 || u.ops_done.get(k).copied().unwrap_or(0) > 0));
    let g = lock(&u.w);
    let mut sig = 0u64;
    for (t, e) in &g.slots[0].log {
        let k = match e {
            Ev::In(m) => msg_s(m).len() as u64,
            Ev::Out { msg, .. } => 1000 + msg_pos(msg).map(|x| x.0 * 64 + x.1).unwrap_or(0),
            Ev::WalSave { rec: Some(w), .. } => 100_000 + w.height * 1000 + w.round * 10 + w.step as u64,
            Ev::Sign(_) => continue,
            _ => 7,
        };
        sig = det::splitmix(sig ^ k ^ (t << 20));
    }
    r.sig = sig;
    r.sample = format!(
        "{} validators, {} byzantine, interval {}, {} stimuli, {} log events, ends at height {} round {}; {}",
        u.chain.addrs.len(),
        u.byz.len(),
        u.chain.epochs[0].interval,
        u.script.len(),
        g.slots[0].log.len(),
        u.mon.h,
        u.mon.r,
        u.mon.cov.iter().map(|(k, v)| format!("{} {}", k, v)).collect::<Vec<_>>().join(", ")
    );
    if trace {
        r.trace = trace_of(&g);
    }
    r
}

#[allow(dead_code)]
fn unused(_: HashSet<u8>) {}
