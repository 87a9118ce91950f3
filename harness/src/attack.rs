//! Agreement under attack: real nodes around a scheduler that owns the network and the Byzantine
//! keys. Nothing reaches a node unless the scheduler hands it over. It keeps every signature it has
//! seen, builds whatever certificates they allow, shows them to some nodes, late or never, crashes
//! nodes between steps, and presses for another block once one may have been committed in hiding.
use crate::cluster::check_agreement;
use crate::det;
use crate::runner::CaseResult;
use crate::tape::Tape;
use crate::world::*;
use overlord::types::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
struct Pool {
    votes: BTreeMap<(u64, u64, u8, Hash), BTreeSet<Address>>,
    props: BTreeMap<(u64, u64), Vec<SignedProposal<Blk>>>,
    chokes: BTreeMap<(u64, u64), BTreeMap<Address, SignedChoke>>,
    all: Vec<Msg>,
}

fn kind(t: &VoteType) -> u8 {
    1 + (*t == VoteType::Precommit) as u8
}
fn tv(k: u8) -> VoteType {
    if k == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}

/// Everything the nodes send ends here.
fn tap(g: &mut World, _w: &W, _slot: usize, _to: Option<Address>, msg: Msg) {
    let p = g.ext.downcast_mut::<Pool>().expect("pool");
    match &msg {
        OverlordMsg::SignedVote(v) => {
            p.votes
                .entry((v.vote.height, v.vote.round, kind(&v.vote.vote_type), v.vote.block_hash.clone()))
                .or_default()
                .insert(v.voter.clone());
        }
        OverlordMsg::SignedProposal(s) => {
            p.props.entry((s.proposal.height, s.proposal.round)).or_default().push(s.clone());
        }
        OverlordMsg::SignedChoke(c) => {
            p.chokes.entry((c.choke.height, c.choke.round)).or_default().insert(c.address.clone(), c.clone());
        }
        _ => {}
    }
    if p.all.len() < 400 {
        p.all.push(msg);
    }
}

/// What the scheduler hopes the nodes take for a quorum. Most cases build only what is one; the rest
/// try their luck with less, which changes nothing as long as the nodes look at what they get.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Faith {
    Law,
    Half,
    Floor,
    Number,
    Forged,
    Stale,
}

struct Att {
    faith: Faith,
    w: W,
    t: Tape,
    chain: Chain,
    byz: Vec<Address>,
    h: u64,
    interval: u64,
    nonce: u64,
    /// The latest round in which some block may have been committed.
    hidden: Option<(u64, Hash)>,
    stats: BTreeMap<&'static str, u64>,
    down: Vec<usize>,
    conflict: Option<String>,
}

impl Att {
    fn hit(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn pool<R>(&self, f: impl FnOnce(&mut Pool) -> R) -> R {
        f(lock(&self.w).ext.downcast_mut::<Pool>().expect("pool"))
    }
    fn slots(&self) -> usize {
        lock(&self.w).slots.len()
    }
    fn pos(&self, s: usize) -> (u64, u64, u8) {
        let g = lock(&self.w);
        let x = g.slots[s].wal.as_ref().and_then(|b| decode_wal(b));
        x.map(|w| (w.height, w.round, w.step)).unwrap_or((0, 0, 0))
    }
    fn alive(&self, s: usize) -> bool {
        lock(&self.w).slots[s].alive
    }
    /// Nodes that still fight for the height.
    fn here(&self) -> Vec<usize> {
        (0..self.slots()).filter(|s| self.alive(*s) && self.pos(*s).0 == self.h && lock(&self.w).slots[*s].app_height < self.h).collect()
    }
    fn some(&mut self) -> Vec<usize> {
        let n = self.slots();
        match self.t.weighted(&[5, 2, 2, 2]) {
            0 => (0..n).collect(),
            1 => {
                let k = self.t.draw(n as u32) as usize;
                (0..n).filter(|i| *i != k).collect()
            }
            2 => vec![self.t.draw(n as u32) as usize],
            _ => self.t.subset(n),
        }
    }
    fn give(&mut self, who: &[usize], m: &Msg) {
        for s in who {
            let me = lock(&self.w).slots[*s].addr.clone();
            let own = match m {
                OverlordMsg::SignedProposal(p) => p.proposal.proposer == me,
                OverlordMsg::SignedVote(v) => v.voter == me,
                OverlordMsg::SignedChoke(c) => c.address == me,
                _ => false,
            };
            if !own {
                deliver(&self.w, *s, m.clone());
            }
        }
    }
    async fn settle(&mut self) {
        sleep_ms(1).await;
    }
    fn list_height(&self, h: u64) -> u64 {
        if self.faith == Faith::Stale {
            h.saturating_sub(1).max(1)
        } else {
            h
        }
    }
    fn signers_at(&self, k: &(u64, u64, u8, Hash), lh: u64) -> Vec<Address> {
        let mut who = self.pool(|p| p.votes.get(k).cloned().unwrap_or_default());
        who.extend(self.byz.iter().cloned());
        who.into_iter().filter(|a| self.chain.is_member(lh, a)).collect()
    }
    fn signers(&self, k: &(u64, u64, u8, Hash)) -> Vec<Address> {
        self.signers_at(k, self.list_height(k.0))
    }
    fn hoped(&self, h: u64, who: &[Address]) -> bool {
        let lh = self.list_height(h);
        let (w, all) = (self.chain.weight_of(lh, who) as u128, self.chain.total(lh) as u128);
        match self.faith {
            Faith::Law | Faith::Stale | Faith::Forged => w * 3 > all * 2,
            Faith::Half => w * 2 > all,
            Faith::Floor => w > all / 3 * 2 || w >= all * 2 / 3,
            Faith::Number => who.len() * 3 > self.chain.n(lh) * 2,
        }
    }
    fn vote_keys(&self, kd: u8, r: Option<u64>) -> Vec<(u64, u64, u8, Hash)> {
        self.pool(|p| p.votes.keys().filter(|k| k.0 == self.h && k.2 == kd && r.map(|r| k.1 == r).unwrap_or(true)).cloned().collect())
    }
    /// Quorums that the seen and the Byzantine votes make.
    fn true_quorums(&self, kd: u8) -> Vec<(u64, u64, u8, Hash)> {
        let keys = self.vote_keys(kd, None);
        keys.into_iter().filter(|k| self.chain.quorum(k.0, self.chain.weight_of(k.0, &self.signers_at(k, k.0)))).collect()
    }
    /// Certificates worth a try.
    fn quorums(&self, kd: u8, r: Option<u64>) -> Vec<(u64, u64, u8, Hash)> {
        let mut keys = self.vote_keys(kd, r);
        if self.faith == Faith::Forged {
            // anything goes: any proposed block, in any round
            self.pool(|p| {
                for (k, v) in &p.props {
                    for x in v {
                        let q = (k.0, r.unwrap_or(k.1), kd, x.proposal.block_hash.clone());
                        if k.0 == self.h && !keys.contains(&q) {
                            keys.push(q);
                        }
                    }
                }
            });
            return keys;
        }
        keys.into_iter().filter(|k| self.hoped(k.0, &self.signers(k))).collect()
    }
    fn qc(&mut self, k: &(u64, u64, u8, Hash)) -> AggregatedVote {
        let mut who = self.signers(k);
        if self.t.chance(1, 2) && self.faith != Faith::Forged {
            self.t.shuffle(&mut who);
            let mut i = 0;
            while i < who.len() {
                let a = who.remove(i);
                if !self.hoped(k.0, &who) {
                    who.insert(i, a);
                    i += 1;
                }
            }
        }
        let l = self.chain.leader(k.0, k.1);
        let mut q = self.chain.make_qc(k.0, k.1, tv(k.2), &k.3, &who, &l);
        match self.faith {
            Faith::Stale => q.signature.address_bitmap = self.chain.bitmap(self.list_height(k.0), &who),
            Faith::Forged if !self.chain.quorum(k.0, self.chain.weight_of(k.0, &who)) => {
                self.hit("forged_certificates");
                let all: Vec<Address> = self.chain.sorted(k.0).into_iter().map(|x| x.0).collect();
                match self.t.draw(5) {
                    // more names than signatures
                    0 => q.signature.address_bitmap = self.chain.bitmap(k.0, &all),
                    // bits beyond the list
                    1 => {
                        let mut b = q.signature.address_bitmap.to_vec();
                        b.extend([0xff; 2]);
                        q.signature.address_bitmap = b.into();
                    }
                    2 => q.signature.address_bitmap = vec![0xff; 2 + self.t.draw(3) as usize].into(),
                    // votes of the other kind, of another round or for another block
                    i => {
                        let other: Vec<_> = if i == 3 { self.true_quorums(3 - k.2) } else { self.true_quorums(k.2) };
                        if !other.is_empty() {
                            let o = self.t.pick(&other).clone();
                            let who = self.signers(&o);
                            let mut x = self.chain.make_qc(o.0, o.1, tv(o.2), &o.3, &who, &l);
                            match self.t.draw(3) {
                                0 => x.vote_type = tv(k.2),
                                1 => x.round = k.1,
                                _ => x.block_hash = k.3.clone(),
                            }
                            q = x;
                        }
                    }
                }
            }
            _ => {}
        }
        q
    }
    fn choke_qc(&self, r: u64) -> Option<AggregatedChoke> {
        let mut who: BTreeSet<Address> = self.pool(|p| p.chokes.get(&(self.h, r)).map(|m| m.keys().cloned().collect()).unwrap_or_default());
        who.extend(self.byz.iter().filter(|b| self.chain.is_member(self.h, b)).cloned());
        let who: Vec<Address> = who.into_iter().collect();
        if who.len() * 3 > self.chain.n(self.h) * 2 {
            Some(self.chain.make_choke_qc(self.h, r, &who))
        } else {
            None
        }
    }
    fn notice(&mut self) {
        let q: Vec<_> = self.true_quorums(2).into_iter().filter(|k| !k.3.is_empty()).collect();
        for k in &q {
            match self.hidden.clone() {
                None => {
                    self.hit("possible_commits");
                    self.hidden = Some((k.1, k.3.clone()));
                }
                Some((r, x)) => {
                    if x != k.3 && self.conflict.is_none() {
                        self.conflict = Some(format!(
                            "height {}: the votes of round {} commit {}, those of round {} commit {}",
                            self.h,
                            r,
                            hx(&x),
                            k.1,
                            hx(&k.3)
                        ));
                    }
                }
            }
        }
    }
    fn known(&self) -> Vec<Blk> {
        let mut v: Vec<Blk> = vec![];
        self.pool(|p| {
            for (k, ps) in &p.props {
                if k.0 == self.h {
                    for x in ps {
                        if !v.contains(&x.proposal.content) {
                            v.push(x.proposal.content.clone());
                        }
                    }
                }
            }
        });
        v
    }
    fn byz_proposal(&mut self, leader: &Address, r: u64) -> SignedProposal<Blk> {
        self.hit("byz_proposals");
        let mut known = self.known();
        if let Some((_, x)) = &self.hidden {
            let x = x.clone();
            if self.t.chance(2, 3) {
                known.retain(|b| b.hash() != x);
            }
        }
        let b = if !known.is_empty() && self.t.chance(2, 3) {
            self.t.pick(&known).clone()
        } else {
            self.nonce += 1;
            Blk { height: self.h, nonce: 1 << 40 | self.nonce, proposer: 99, quality: Q_VALID, delay: 0 }
        };
        let q: Vec<_> = self.quorums(1, None).into_iter().filter(|k| !k.3.is_empty()).collect();
        let fit: Vec<_> = q.iter().filter(|k| k.3 == b.hash()).cloned().collect();
        let lock = match self.t.weighted(&[4, 4, 1]) {
            1 if !fit.is_empty() => {
                let k = self.t.pick(&fit).clone();
                let lr = if self.t.chance(1, 6) { self.t.draw(r as u32 + 1) as u64 } else { k.1 };
                Some(PoLC { lock_round: lr, lock_votes: self.qc(&k) })
            }
            2 if !q.is_empty() => {
                let k = self.t.pick(&q).clone();
                Some(PoLC { lock_round: k.1, lock_votes: self.qc(&k) })
            }
            _ => None,
        };
        let mut hash = b.hash();
        let known = self.known();
        if known.len() > 1 && self.t.chance(1, 12) {
            // the content of another block
            hash = self.t.pick(&known).hash();
        }
        mk_proposal(leader, self.h, r, &b, &hash, lock)
    }

    async fn propose(&mut self, r: u64) {
        let l = self.chain.leader(self.h, r);
        let mut ps = self.pool(|p| p.props.get(&(self.h, r)).cloned().unwrap_or_default());
        if self.byz.contains(&l) && (ps.is_empty() || self.t.chance(1, 4)) {
            for _ in 0..1 + self.t.weighted(&[3, 1]) {
                let p = self.byz_proposal(&l, r);
                self.pool(|x| x.props.entry((self.h, r)).or_default().push(p.clone()));
                ps.push(p);
            }
        }
        for p in ps {
            let who = self.some();
            self.give(&who, &OverlordMsg::SignedProposal(p));
        }
        self.settle().await;
        self.notice();
    }
    async fn certify(&mut self, r: u64, k: u8) {
        let qs = self.quorums(k, Some(r));
        if qs.is_empty() {
            return;
        }
        let q = self.t.pick(&qs).clone();
        let l = self.chain.leader(self.h, r);
        let ls = (0..self.slots()).find(|s| lock(&self.w).slots[*s].addr == l);
        if let (Some(s), true) = (ls, self.t.chance(1, 3)) {
            // let the leader do it
            let mut who = self.signers(&q);
            self.t.shuffle(&mut who);
            if self.t.chance(1, 6) {
                let again = who.clone();
                who.extend(again);
            }
            for a in who {
                let v = mk_vote(&a, q.0, q.1, tv(q.2), &q.3);
                self.give(&[s], &OverlordMsg::SignedVote(v));
            }
            self.settle().await;
        }
        let c = self.qc(&q);
        let who = if k == 2 && !q.3.is_empty() { vec![self.t.draw(self.slots() as u32) as usize] } else { self.some() };
        self.give(&who, &OverlordMsg::AggregatedVote(c));
        self.settle().await;
        self.notice();
    }
    /// A certificate of any round, out of turn.
    /// Two blocks in one round, each shown to one half only.
    async fn split(&mut self, r: u64) {
        let l = self.chain.leader(self.h, r);
        let mut ps = self.pool(|p| p.props.get(&(self.h, r)).cloned().unwrap_or_default());
        while ps.len() < 2 && self.byz.contains(&l) {
            self.nonce += 1;
            let b = Blk { height: self.h, nonce: 1 << 40 | self.nonce, proposer: 99, quality: Q_VALID, delay: 0 };
            let p = mk_proposal(&l, self.h, r, &b, &b.hash(), None);
            self.pool(|x| x.props.entry((self.h, r)).or_default().push(p.clone()));
            ps.push(p);
        }
        if ps.len() < 2 {
            return;
        }
        self.hit("splits");
        let mut all: Vec<usize> = (0..self.slots()).collect();
        self.t.shuffle(&mut all);
        let k = if self.t.chance(2, 3) { all.len() / 2 } else { self.t.draw(all.len() as u32 + 1) as usize };
        let b = all.split_off(k);
        let sides = [all, b];
        for (p, g) in ps.iter().zip(&sides) {
            self.give(g, &OverlordMsg::SignedProposal(p.clone()));
        }
        self.settle().await;
        self.notice();
        for kd in [1u8, 2] {
            if self.t.chance(1, 20) {
                self.crashes().await;
                self.revive(false).await;
            }
            for (p, g) in ps.iter().zip(&sides) {
                let x = p.proposal.block_hash.clone();
                if let Some(q) = self.quorums(kd, Some(r)).into_iter().find(|q| q.3 == x) {
                    let c = self.qc(&q);
                    self.give(g, &OverlordMsg::AggregatedVote(c));
                }
            }
            self.settle().await;
            self.notice();
        }
    }
    async fn any_certificate(&mut self) {
        let k = 1 + self.t.weighted(&[3, 1]) as u8;
        let mut qs = self.quorums(k, None);
        if k == 2 {
            qs.retain(|q| q.3.is_empty());
        }
        if qs.is_empty() {
            return;
        }
        let q = self.t.pick(&qs).clone();
        let c = self.qc(&q);
        let who = self.some();
        let m = if self.t.chance(1, 3) && !self.byz.is_empty() {
            let b = self.t.pick(&self.byz.clone()).clone();
            let f = if k == 1 { UpdateFrom::PrevoteQC(c) } else { UpdateFrom::PrecommitQC(c) };
            OverlordMsg::SignedChoke(mk_choke(&b, self.h, q.1 + 1, f))
        } else {
            OverlordMsg::AggregatedVote(c)
        };
        self.hit("late_certificates");
        self.give(&who, &m);
        self.settle().await;
        self.notice();
    }
    async fn end_round(&mut self, r: u64) {
        if self.t.chance(1, 3) {
            let q: Vec<_> = self.quorums(2, Some(r)).into_iter().filter(|k| k.3.is_empty()).collect();
            if let Some(k) = q.first() {
                let c = self.qc(k);
                let who = self.some();
                self.give(&who, &OverlordMsg::AggregatedVote(c));
                self.settle().await;
            }
        }
        for i in 0..8 {
            let left = self.here().into_iter().filter(|s| self.pos(*s).1 == r && self.pos(*s).2 != S_BRAKE).count();
            if left == 0 || (i > 0 && self.t.chance(1, 8)) {
                break;
            }
            let ms = self.interval / 2 + self.t.draw(4 * self.interval as u32) as u64;
            sleep_ms(ms).await;
            self.notice();
        }
        if let Some(c) = self.choke_qc(r) {
            if self.t.chance(1, 3) && !self.byz.is_empty() {
                // drag them over
                let b = self.t.pick(&self.byz.clone()).clone();
                let who = self.some();
                self.give(&who, &OverlordMsg::SignedChoke(mk_choke(&b, self.h, r + 1, UpdateFrom::ChokeQC(c))));
            } else {
                let mut cs: Vec<SignedChoke> =
                    self.pool(|p| p.chokes.get(&(self.h, r)).map(|m| m.values().cloned().collect()).unwrap_or_default());
                for b in self.byz.clone() {
                    cs.push(mk_choke(&b, self.h, r, mock_from()));
                }
                let who = self.some();
                for c in cs {
                    self.give(&who, &OverlordMsg::SignedChoke(c));
                }
            }
            self.settle().await;
        }
    }
    async fn crashes(&mut self) {
        let n = self.slots();
        let who = self.some();
        let now = self.t.chance(2, 3);
        for s in who {
            if self.alive(s) {
                self.hit("crashes");
                if now {
                    crash(&self.w, s);
                } else {
                    let k = self.t.draw(8) as u64;
                    lock(&self.w).slots[s].crash_in = Some(k);
                }
            }
        }
        let _ = n;
        self.settle().await;
    }
    async fn revive(&mut self, all: bool) {
        for s in 0..self.slots() {
            if !self.alive(s) && (all || self.t.chance(3, 4)) {
                let init = lock(&self.w).slots[s].app_height + 1;
                start(&self.w, s, init);
                if all || self.t.chance(2, 3) {
                    let st = self.chain.status(init);
                    deliver(&self.w, s, OverlordMsg::RichStatus(st));
                } else {
                    self.down.push(s);
                }
            }
        }
        self.settle().await;
    }
    async fn remind(&mut self) {
        for s in std::mem::take(&mut self.down) {
            let init = lock(&self.w).slots[s].app_height + 1;
            let st = self.chain.status(init);
            deliver(&self.w, s, OverlordMsg::RichStatus(st));
        }
        self.settle().await;
    }

    async fn step(&mut self) {
        self.remind().await;
        let here = self.here();
        if here.is_empty() {
            return self.revive(true).await;
        }
        let top = here.iter().map(|s| self.pos(*s).1).max().unwrap();
        let r = if self.t.chance(3, 4) {
            top
        } else {
            let s = *self.t.pick(&here);
            self.pos(s).1
        };
        let crash = if self.hidden.is_some() { 2 } else { 1 };
        let split = if self.faith == Faith::Law { 1 } else { 16 };
        match self.t.weighted(&[16, 4, 4, 2 * crash, 2, 2, 1, split]) {
            0 => {
                self.hit("rounds");
                if !self.t.chance(1, 10) {
                    self.propose(r).await;
                }
                if self.t.chance(crash, 12) {
                    self.crashes().await;
                    self.revive(false).await;
                }
                if self.t.chance(1, 6) {
                    let ms = self.t.draw(4 * self.interval as u32) as u64;
                    sleep_ms(ms).await;
                }
                if !self.t.chance(1, 6) {
                    self.certify(r, 1).await;
                }
                if self.t.chance(1, 10) {
                    self.certify(r, 2).await;
                }
                if self.t.chance(crash, 12) {
                    self.crashes().await;
                    self.revive(false).await;
                }
                self.end_round(r).await;
            }
            1 => self.end_round(r).await,
            2 => self.any_certificate().await,
            3 => {
                self.crashes().await;
                self.revive(false).await;
            }
            4 => {
                let all = self.pool(|p| p.all.clone());
                if !all.is_empty() {
                    let m = self.t.pick(&all).clone();
                    let who = self.some();
                    self.give(&who, &m);
                    self.settle().await;
                }
            }
            5 => {
                let ms = self.t.draw(6 * self.interval as u32) as u64;
                sleep_ms(ms).await;
            }
            7 => {
                self.split(r).await;
                self.end_round(r).await;
            }
            _ => {
                self.hit("log_failures");
                for s in self.some() {
                    let k = 1 + self.t.draw(3);
                    lock(&self.w).slots[s].wal_fail = k;
                }
            }
        }
        self.notice();
        self.revive(false).await;
    }

    /// Show every possible commit to somebody.
    async fn finish(&mut self) {
        {
            let mut g = lock(&self.w);
            for s in g.slots.iter_mut() {
                s.crash_in = None;
                s.wal_fail = 0;
            }
        }
        self.revive(true).await;
        self.remind().await;
        self.notice();
        let mut qs: Vec<_> = self.quorums(2, None).into_iter().filter(|k| !k.3.is_empty()).collect();
        let last = self.pool(|p| p.votes.keys().filter(|k| k.0 == self.h).map(|k| k.1).max().unwrap_or(0));
        qs.retain(|k| self.faith != Faith::Forged || k.1 + 2 > last);
        let known: Vec<SignedProposal<Blk>> = self.pool(|p| p.props.iter().filter(|(k, _)| k.0 == self.h).flat_map(|(_, v)| v.clone()).collect());
        for s in self.here() {
            for p in &known {
                self.give(&[s], &OverlordMsg::SignedProposal(p.clone()));
            }
            self.settle().await;
            if !qs.is_empty() {
                let q = self.t.pick(&qs).clone();
                let c = self.qc(&q);
                self.give(&[s], &OverlordMsg::AggregatedVote(c));
            }
            self.settle().await;
        }
        sleep_ms(2 * self.interval).await;
    }
}

async fn run(mut t: Tape) -> Att {
    let faith = [Faith::Law, Faith::Half, Faith::Floor, Faith::Number, Faith::Forged, Faith::Stale][t.weighted(&[20, 2, 2, 2, 3, 2])];
    // with four equal validators the common misreadings of the threshold come to the same
    let few = matches!(faith, Faith::Half | Faith::Floor | Faith::Number);
    let n = [4usize, 5, 7, 3, 6][t.weighted(if few { &[2, 6, 3, 1, 4] } else { &[10, 2, 2, 1, 1] })];
    let heights = if faith == Faith::Stale { 2 + t.draw(2) as u64 } else { 1 + t.weighted(&[8, 3, 1]) as u64 };
    let spare = if heights > 1 { t.draw(3) as usize } else { 0 };
    let addrs = gen_addrs(&mut t, n + spare);
    let interval = [300u64, 1000][t.draw(2) as usize];
    let ws = if faith != Faith::Number && t.chance(2, 3) { vec![1; n] } else { weights_kind(&mut t, n) };
    let mut list: Vec<(usize, u32, u32)> = (0..n).map(|i| (i, 1, ws[i])).collect();
    if list.iter().all(|x| x.2 == 0) {
        list[0].2 = 1;
    }
    t.shuffle(&mut list);
    let mut epochs = vec![Epoch { from: 0, list: list.clone(), interval, config: None, say: 0 }];
    for h in 2..=heights + 1 {
        if !t.chance(3, 4) {
            continue;
        }
        // others join and leave, weights move
        for i in n..n + spare {
            let at = list.iter().position(|x| x.0 == i);
            match at {
                None if t.chance(1, 2) => {
                    let w = list[t.draw(list.len() as u32) as usize].2.max(1);
                    if t.chance(1, 2) {
                        let k = t.draw(list.len() as u32) as usize;
                        list[k] = (i, 1, list[k].2.max(1));
                    } else {
                        list.push((i, 1, w));
                    }
                }
                Some(k) if t.chance(1, 2) && list.len() > 1 => {
                    list.remove(k);
                }
                _ => {}
            }
        }
        if t.chance(1, 3) {
            let k = t.draw(list.len() as u32) as usize;
            list[k].2 = list[k].2.saturating_add(t.draw(4));
        }
        if list.iter().all(|x| x.2 == 0) {
            list[0].2 = 1;
        }
        t.shuffle(&mut list);
        epochs.push(Epoch { from: h, list: list.clone(), interval, config: None, say: 0 });
    }
    let chain = Chain { addrs, epochs, ..Default::default() };
    let mut byz: Vec<Address> = vec![];
    let mut order: Vec<usize> = (0..n + spare).collect();
    t.shuffle(&mut order);
    let greed = [4, 1, 0][t.weighted(&[8, 2, 1])];
    for i in order {
        let mut b = byz.clone();
        b.push(chain.addrs[i].clone());
        let few = |h: u64| chain.weight_of(h, &b) * 3 < chain.total(h) && b.iter().filter(|a| chain.is_member(h, a)).count() < chain.n(h);
        if (1..=heights + 1).all(few) && t.chance(greed, 4) {
            byz = b;
        }
    }
    let w = new_world(chain.clone(), Tape::fixed(vec![], 0));
    for a in &chain.addrs {
        if !byz.contains(a) {
            add_slot(&w, a.clone());
        }
    }
    {
        let mut g = lock(&w);
        g.ext = Box::new(Pool::default());
        g.out = Some(tap);
        if t.chance(1, 6) {
            for s in g.slots.iter_mut() {
                s.check_delay_max = interval;
            }
        }
    }
    let mut u = Att {
        faith,
        w,
        t,
        chain,
        byz,
        h: 1,
        interval,
        nonce: 0,
        hidden: None,
        stats: BTreeMap::new(),
        down: vec![],
        conflict: None,
    };
    for s in 0..u.slots() {
        start(&u.w, s, 0);
        deliver(&u.w, s, OverlordMsg::RichStatus(u.chain.status(1)));
    }
    u.settle().await;
    for h in 1..=heights {
        if h > 1 {
            u.hit("next_heights");
            u.h = h;
            u.hidden = None;
            let st = u.chain.status(h);
            let who = u.some();
            u.give(&who, &OverlordMsg::RichStatus(st));
            u.settle().await;
        }
        let k = 6 + u.t.draw(if heights > 1 { 20 } else { 40 });
        for _ in 0..k {
            if u.conflict.is_some() || u.t.used.len() > 20_000 * h as usize {
                break;
            }
            u.step().await;
        }
        u.finish().await;
        if u.conflict.is_some() {
            break;
        }
    }
    u
}

pub fn case(t: &mut Tape, trace: bool) -> CaseResult {
    let tape = std::mem::replace(t, Tape::fixed(vec![], 0));
    let mut u = block_on(run(tape));
    *t = std::mem::replace(&mut u.t, Tape::fixed(vec![], 0));
    let mut r = CaseResult::default();
    let g = lock(&u.w);
    let mut sig = 0u64;
    let mut commits = 0u64;
    let mut votes = 0u64;
    let mut top = 0;
    for (i, s) in g.slots.iter().enumerate() {
        for (t, e) in &s.log {
            match e {
                Ev::Commit { .. } => commits += 1,
                Ev::Out { msg: OverlordMsg::SignedVote(v), .. } => {
                    votes += 1;
                    top = top.max(v.vote.round);
                    sig = det::splitmix(sig ^ t ^ (v.vote.round << 30) ^ ((i as u64) << 40) ^ ((v.vote.block_hash.is_empty() as u64) << 50));
                }
                _ => {}
            }
        }
    }
    for (k, v) in &u.stats {
        r.tag(k, *v);
    }
    r.tag("attacked_commits", commits);
    r.sig = sig;
    r.nontrivial = u.stats.contains_key("possible_commits") && u.stats.get("rounds").copied().unwrap_or(0) >= 2;
    r.sample = format!(
        "attack: {} real and {} Byzantine validators, weights {:?}, votes up to round {}, {} votes, {} commits, {:?}",
        g.slots.len(),
        u.byz.len(),
        u.chain.epochs[0].list.iter().map(|x| x.2).collect::<Vec<_>>(),
        top,
        votes,
        commits,
        u.stats
    );
    if let Some(d) = check_agreement(&g) {
        r.fail("agreement", d);
    } else if let Some(d) = &u.conflict {
        r.fail("agreement", d.clone());
    }
    if trace {
        r.trace = trace_of(&g);
    }
    r
}
