//! The reference monitor of one real node: it reads the node's event log (what was delivered to it
//! and what it did at its interfaces), keeps the evidence an honest validator could have, and judges
//! every output (rules M*) and, at quiescent points, every output that is due (rules O*).
//! It knows the protocol from the documentation; nothing here is taken from the node's internals.
use crate::world::*;
use overlord::types::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct V {
    pub rule: &'static str,
    pub detail: String,
    pub t: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Busy {
    No,
    GetBlock,
    Commit,
    Pacing,
}

pub fn tn(t: &VoteType) -> u8 {
    if *t == VoteType::Prevote {
        1
    } else {
        2
    }
}

const K_PROPOSAL: u8 = 6;

#[derive(Clone, Debug)]
struct AccQc {
    hash: Hash,
    /// Certainly handled while the node was in the round of the certificate.
    in_round: bool,
}

/// What the node must have accepted in this incarnation.
#[derive(Default)]
struct Acc {
    props: HashMap<(u64, u64), Vec<SignedProposal<Blk>>>,
    votes: HashMap<(u64, u64, u8), HashMap<Address, BTreeSet<Hash>>>,
    votes_in_round: HashSet<(u64, u64, u8)>,
    qcs: HashMap<(u64, u64, u8), AccQc>,
    chokes: HashMap<(u64, u64), BTreeSet<Address>>,
}

pub struct Mon {
    pub me: Address,
    pub chain: Chain,
    pub v: Vec<V>,
    pub cov: BTreeMap<&'static str, u64>,
    /// Timers, pacing and reasons can be judged to the millisecond.
    pub exact: bool,
    // ---- the node
    pub alive: bool,
    pub pos_known: bool,
    pub h: u64,
    pub r: u64,
    pub step: u8,
    pub since: u64,
    pub entered_r: u64,
    entered_h: u64,
    pub busy: Busy,
    pub was_busy: bool,
    busy_from: u64,
    /// When the node last came back from a request for a block that took time: a step entered at
    /// that moment may have been decided, and its timer started, earlier.
    late_at: Option<u64>,
    /// Positions for which a valid message arrived before the node got there.
    early_pos: HashSet<(u64, u64)>,
    pub saved: Option<WalRec>,
    pub lock: Option<(u64, Hash)>,
    pub start: (u64, Option<WalRec>, u64),
    /// Only the start position is known to fit another list: judge nothing until a new height.
    pub suspended: bool,
    pub outsider: bool,
    pub model_h: u64,
    pub wal_failed: Option<(u64, u64)>,
    pub app_failed: Option<(u64, u64)>,
    pub commit_stuck: Option<u64>,
    pub stopped: Option<u64>,
    got: Option<(u64, u64, Blk, Hash)>,
    vcs: Vec<(u64, u64, String, u64)>,
    vc_due: Option<VcDue>,
    from: Option<UpdateFrom>,
    interval: u64,
    /// statuses in the order they arrived, and whether they are answers to a commit
    anns: Vec<(u64, Status, bool)>,
    cfg_unsure: bool,
    lost: bool,
    ratios: [u64; 4],
    hs: Option<u64>,
    /// A proposal that came in the millisecond in which the node left its round may not have been
    /// looked at: what `hs` may be instead.
    hs_alt: Vec<Option<u64>>,
    hs_unsure: bool,
    commit_ret: Option<(u64, u64)>,
    last_choke: Option<u64>,
    brake_due: bool,
    /// The commit record of this height could not be saved: it waits for a status.
    stuck_at: Option<u64>,
    /// Taken just before the latest log record.
    step_before_cast: u8,
    deadline_before_cast: Option<u64>,
    lock_before_cast: Option<(u64, Hash)>,
    /// The prevote timeout that was pending when the precommit of this round was cast.
    deadline_of_cast: Option<u64>,
    checked: HashSet<(u64, Hash)>,
    checked_content: HashSet<(u64, Hash, Blk)>,
    checked_settled: HashSet<(u64, Hash)>,
    commits: HashMap<u64, u32>,
    announced: HashSet<u64>,
    cast: HashMap<(u64, u64, u8), (Hash, u64)>,
    cast_inc: HashMap<(u64, u64, u8), (Hash, u64)>,
    last_sign: Option<(u64, u64, u8, Hash)>,
    acc: Acc,
    inbox: Vec<(u64, Msg)>,
    settled: (u64, u64, u8, u64),
    // ---- evidence over all incarnations
    ev_votes: HashMap<(u64, u64, u8), HashMap<Address, BTreeSet<Hash>>>,
    ev_qcs: HashMap<(u64, u64, u8), Vec<Hash>>,
    ev_chokes: HashMap<(u64, u64), BTreeSet<Address>>,
    ev_choke_qcs: HashSet<(u64, u64)>,
    ev_props: HashMap<(u64, u64), Vec<SignedProposal<Blk>>>,
    released: HashMap<(u64, u64, u8), Hash>,
    /// The latest lock taken by a cast precommit: height, lock round, hash.
    plock: Option<(u64, u64, Hash)>,
    /// The last proposal of this incarnation: height, round, hash, lock round.
    own_prop: Option<(u64, u64, Hash, Option<u64>)>,
}

/// Why a round may end without a jump.
const REASONS: [&str; 7] = [
    "LeaderReceivedVoteBelowThreshold(Prevote)",
    "LeaderReceivedVoteBelowThreshold(Precommit)",
    "NoProposalFromNetwork",
    "CheckBlockNotPass",
    "NoPrevoteQCFromNetwork",
    "NoPrecommitQCFromNetwork",
    "Others",
];

/// The report that has to be made for a round that was left, if it follows the record.
struct VcDue {
    h: u64,
    old: u64,
    new: u64,
    kind: &'static str,
    want: Option<String>,
    wrong: Vec<(String, String)>,
    any: bool,
}

fn ratios(c: &Option<overlord::DurationConfig>) -> [u64; 4] {
    match c {
        None => [24, 10, 5, 3],
        Some(c) => [c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio],
    }
}

/// A proposal every validator of its height accepts as well formed: signed by the leader, and its
/// lock, if any, is a prevote certificate of an earlier round for that very block.
pub fn proposal_ok(c: &Chain, sp: &SignedProposal<Blk>) -> bool {
    let p = &sp.proposal;
    let lock_ok = match &p.lock {
        None => true,
        Some(l) => {
            let q = &l.lock_votes;
            q.is_prevote_qc()
                && q.height == p.height
                && q.round == l.lock_round
                && q.round < p.round
                && q.block_hash == p.block_hash
                && c.qc_valid(q)
        }
    };
    p.proposer == c.leader(p.height, p.round)
        && sp.signature == sign_as(&p.proposer, &proposal_payload(p))
        && !p.block_hash.is_empty()
        && lock_ok
}
pub fn vote_ok(c: &Chain, v: &SignedVote) -> bool {
    let p = &v.vote;
    c.is_member(p.height, &v.voter)
        && v.signature == sign_as(&v.voter, &vote_payload(p.height, p.round, &p.vote_type, &p.block_hash))
}
pub fn choke_ok(c: &Chain, k: &SignedChoke) -> bool {
    c.is_member(k.choke.height, &k.address)
        && k.signature == sign_as(&k.address, &choke_payload(k.choke.height, k.choke.round))
}
/// Does the certificate end round `r` of height `h`?
pub fn ends_round(c: &Chain, f: &UpdateFrom, h: u64, r: u64) -> bool {
    match f {
        UpdateFrom::PrevoteQC(q) => q.is_prevote_qc() && q.height == h && q.round == r && c.qc_valid(q),
        UpdateFrom::PrecommitQC(q) => {
            !q.is_prevote_qc() && q.height == h && q.round == r && q.block_hash.is_empty() && c.qc_valid(q)
        }
        UpdateFrom::ChokeQC(q) => q.height == h && q.round == r && c.choke_qc_valid(q),
    }
}

impl Mon {
    pub fn new(me: Address, chain: Chain) -> Self {
        Mon {
            me,
            chain,
            v: vec![],
            cov: BTreeMap::new(),
            exact: false,
            alive: false,
            pos_known: false,
            h: 0,
            r: 0,
            step: 0,
            since: 0,
            entered_r: 0,
            entered_h: u64::MAX,
            busy: Busy::No,
            was_busy: false,
            busy_from: 0,
            late_at: None,
            early_pos: HashSet::new(),
            saved: None,
            lock: None,
            start: (0, None, 0),
            suspended: false,
            outsider: false,
            model_h: 0,
            wal_failed: None,
            app_failed: None,
            commit_stuck: None,
            stopped: None,
            got: None,
            vcs: vec![],
            vc_due: None,
            from: None,
            interval: 0,
            anns: vec![],
            cfg_unsure: false,
            lost: false,
            ratios: [24, 10, 5, 3],
            hs: None,
            hs_alt: vec![],
            hs_unsure: false,
            commit_ret: None,
            last_choke: None,
            brake_due: false,
            stuck_at: None,
            step_before_cast: 0,
            deadline_before_cast: None,
            lock_before_cast: None,
            deadline_of_cast: None,
            checked: HashSet::new(),
            checked_content: HashSet::new(),
            checked_settled: HashSet::new(),
            commits: HashMap::new(),
            announced: HashSet::new(),
            cast: HashMap::new(),
            cast_inc: HashMap::new(),
            last_sign: None,
            acc: Acc::default(),
            inbox: vec![],
            settled: (0, 0, 0, 0),
            ev_votes: HashMap::new(),
            ev_qcs: HashMap::new(),
            ev_chokes: HashMap::new(),
            ev_choke_qcs: HashSet::new(),
            ev_props: HashMap::new(),
            released: HashMap::new(),
            plock: None,
            own_prop: None,
        }
    }

    /// What the node has let out as its vote, if it has.
    pub fn released_vote(&self, h: u64, r: u64, k: u8) -> Option<Hash> {
        self.released.get(&(h, r, k)).cloned()
    }
    pub fn choked(&self, h: u64, r: u64) -> bool {
        self.ev_chokes.get(&(h, r)).map(|s| s.contains(&self.me)).unwrap_or(false)
    }
    /// The node has decided this height, but could not finish it.
    pub fn is_stuck(&self) -> bool {
        self.commits.get(&self.h).copied().unwrap_or(0) > 0 || self.stuck_at == Some(self.h) || self.commit_stuck == Some(self.h)
    }
    pub fn interval_now(&self) -> u64 {
        self.interval
    }

    fn bad(&mut self, t: u64, rule: &'static str, detail: String) {
        // Started at a height of another list: only what does not depend on lists is judged.
        if self.suspended && !rule.starts_with("M1-") && !rule.starts_with("M2-") {
            return;
        }
        if self.v.len() < 64 {
            self.v.push(V { rule, detail, t });
        }
    }
    fn hit(&mut self, k: &'static str) {
        *self.cov.entry(k).or_insert(0) += 1;
    }

    // ------------------------------------------------------------ evidence

    fn learn_qc(&mut self, q: &AggregatedVote) -> bool {
        if !self.chain.qc_valid(q) {
            return false;
        }
        let e = self.ev_qcs.entry((q.height, q.round, tn(&q.vote_type))).or_default();
        if !e.contains(&q.block_hash) {
            e.push(q.block_hash.clone());
        }
        true
    }
    fn learn_from(&mut self, f: &UpdateFrom) {
        match f {
            UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => {
                if self.chain.qc_valid(q) {
                    self.learn_qc(q);
                }
            }
            UpdateFrom::ChokeQC(q) => {
                if self.chain.choke_qc_valid(q) {
                    self.ev_choke_qcs.insert((q.height, q.round));
                }
            }
        }
    }
    fn learn(&mut self, m: &Msg) {
        match m {
            OverlordMsg::SignedVote(v) if vote_ok(&self.chain, v) => {
                self.ev_votes
                    .entry((v.vote.height, v.vote.round, tn(&v.vote.vote_type)))
                    .or_default()
                    .entry(v.voter.clone())
                    .or_default()
                    .insert(v.vote.block_hash.clone());
            }
            OverlordMsg::AggregatedVote(q) => {
                self.learn_qc(q);
            }
            OverlordMsg::SignedProposal(p) if proposal_ok(&self.chain, p) => {
                if let Some(l) = &p.proposal.lock {
                    self.learn_qc(&l.lock_votes);
                }
                self.ev_props.entry((p.proposal.height, p.proposal.round)).or_default().push(p.clone());
            }
            OverlordMsg::SignedChoke(c) if choke_ok(&self.chain, c) => {
                self.ev_chokes.entry((c.choke.height, c.choke.round)).or_default().insert(c.address.clone());
                self.learn_from(&c.choke.from);
            }
            OverlordMsg::RichStatus(s) => {
                self.announced.insert(s.height);
            }
            _ => {}
        }
    }
    /// Has the node seen a quorum of these votes, as a certificate or one by one?
    fn quorum_seen(&self, h: u64, r: u64, t: u8, hash: &Hash) -> bool {
        if self.ev_qcs.get(&(h, r, t)).map(|v| v.contains(hash)).unwrap_or(false) {
            return true;
        }
        let mut who: Vec<Address> = self
            .ev_votes
            .get(&(h, r, t))
            .map(|m| m.iter().filter(|(_, s)| s.contains(hash)).map(|(a, _)| a.clone()).collect())
            .unwrap_or_default();
        if self.cast.get(&(h, r, t)).map(|c| &c.0 == hash).unwrap_or(false) && !who.contains(&self.me) {
            who.push(self.me.clone());
        }
        self.chain.quorum(h, self.chain.weight_of(h, &who))
    }
    fn hashes_seen(&self, h: u64, r: u64, t: u8) -> Vec<Hash> {
        let mut v: Vec<Hash> = self.ev_qcs.get(&(h, r, t)).cloned().unwrap_or_default();
        if let Some(m) = self.ev_votes.get(&(h, r, t)) {
            for s in m.values() {
                for x in s {
                    if !v.contains(x) {
                        v.push(x.clone());
                    }
                }
            }
        }
        if let Some(c) = self.cast.get(&(h, r, t)) {
            if !v.contains(&c.0) {
                v.push(c.0.clone());
            }
        }
        v
    }
    fn round_end_seen(&self, h: u64, r: u64) -> bool {
        let chokes = self.ev_chokes.get(&(h, r)).map(|s| s.len()).unwrap_or(0);
        self.hashes_seen(h, r, 1).iter().any(|x| self.quorum_seen(h, r, 1, x))
            || self.quorum_seen(h, r, 2, &nil())
            || self.ev_choke_qcs.contains(&(h, r))
            || chokes * 3 > self.chain.n(h) * 2
    }
    /// A valid prevote quorum for something else than `hash`, of a round after `lr`.
    fn release_seen(&self, h: u64, lr: u64, hash: &Hash) -> bool {
        let mut rounds: BTreeSet<u64> = self.ev_qcs.keys().filter(|k| k.0 == h && k.2 == 1 && k.1 > lr).map(|k| k.1).collect();
        rounds.extend(self.ev_votes.keys().filter(|k| k.0 == h && k.2 == 1 && k.1 > lr).map(|k| k.1));
        rounds.iter().any(|r| self.hashes_seen(h, *r, 1).iter().any(|x| x != hash && self.quorum_seen(h, *r, 1, x)))
    }
    fn is_checked(&self, h: u64, hash: &Hash) -> bool {
        hash.is_empty() || self.checked.contains(&(h, hash.clone()))
    }

    // ------------------------------------------------------------ judging outputs

    fn release(&mut self, t: u64, h: u64, r: u64, k: u8, hash: &Hash) {
        if let Some(old) = self.released.get(&(h, r, k)) {
            if old != hash {
                let d = format!("{} for {} after {} at height {} round {}", kind(k), hx(hash), hx(old), h, r);
                self.bad(t, "M1-equivocation", d);
            }
        } else {
            self.released.insert((h, r, k), hash.clone());
        }
    }

    /// Position of an action that is not a log record.
    fn at(&mut self, t: u64, what: &'static str, h: u64, r: u64) {
        if self.suspended {
            return;
        }
        if !self.pos_known || h != self.h || r != self.r {
            let d = format!("{} of height {} round {} while at height {} round {}", what, h, r, self.h, self.r);
            self.bad(t, if h != self.h { "M13-height" } else { "M9-position" }, d);
        }
    }

    fn on_cast(&mut self, t: u64, h: u64, r: u64, k: u8, hash: Hash) {
        // restart: never again at or before the saved position
        if let Some(w) = &self.start.1 {
            if w.height == h && (!self.suspended || self.lost) {
                let need = if k == 1 { S_PREVOTE } else { S_PRECOMMIT };
                if r < w.round || (r == w.round && w.step >= need) {
                    let d = format!("{} at round {} after a restart from round {} step {}", kind(k), r, w.round, w.step);
                    self.bad(t, "M15-revote", d);
                }
            }
        }
        if self.suspended {
            self.cast.insert((h, r, k), (hash.clone(), t));
            self.cast_inc.insert((h, r, k), (hash, t));
            return;
        }
        let leader = self.chain.leader(h, r);
        if k == 2 && !hash.is_empty() {
            let just = self.quorum_seen(h, r, 1, &hash) || (r > 0 && self.quorum_seen(h, r - 1, 1, &hash));
            if !just {
                let d = format!("precommit for {} at height {} round {} without a prevote quorum", hx(&hash), h, r);
                self.bad(t, "M4-unjustified", d);
            }
            if !self.checked.contains(&(h, hash.clone())) {
                let d = format!("precommit for {} at height {} round {} before its block check passed", hx(&hash), h, r);
                self.bad(t, "M4-unchecked", d);
            }
            let lr = match &self.lock {
                Some((l, x)) if x == &hash && (*l == r || l + 1 == r) => *l,
                _ if self.quorum_seen(h, r.saturating_sub(1), 1, &hash) => r.saturating_sub(1),
                _ => r,
            };
            // A precommit on the certificate of the round before means that this certificate has
            // brought the node here, locked on its block, so that a proposal had to be for it.
            if let Some((ph, pr, phash, plr)) = self.own_prop.clone() {
                if (ph, pr) == (h, r) && r > 0 && !self.quorum_seen(h, r, 1, &hash) {
                    self.hit("proposals_on_catching_up");
                    if phash != hash || plr != Some(r - 1) {
                        let d = format!("proposed {} (lock round {:?}) at height {} round {} though the certificate of the round before locks {}", hx(&phash), plr, h, r, hx(&hash));
                        self.bad(t, "M7-lock", d);
                    }
                }
            }
            self.plock = Some((h, lr, hash.clone()));
            self.hit("nonnil_precommit");
            if r > 0 {
                self.hit("nonnil_precommit_late_round");
            }
        }
        if k == 1 {
            self.lock_rule(t, "prevote", h, r, &hash);
            self.prevote_value(t, h, r, &hash);
        }
        if k == 2 {
            self.deadline_of_cast = self.deadline_before_cast;
        }
        if self.exact && !self.cfg_unsure && !self.was_busy {
            if k == 1 && self.step_before_cast == S_PROPOSE && leader != self.me {
                let prop = self.ev_props.get(&(h, r)).map(|v| !v.is_empty()).unwrap_or(false);
                if !prop && self.deadline_before_cast != Some(t) {
                    let d = format!("prevote without a proposal at {} ms, timeout due at {:?}", t, self.deadline_before_cast);
                    self.bad(t, "O9-timer", d);
                } else if !prop {
                    self.hit("propose_timeouts");
                }
            }
            if k == 2 && hash.is_empty() {
                let nilq = self.quorum_seen(h, r, 1, &nil()) || (r > 0 && self.quorum_seen(h, r - 1, 1, &nil()));
                if !nilq && self.deadline_before_cast != Some(t) {
                    let d = format!("nil precommit without a nil prevote quorum at {} ms, timeout due at {:?}", t, self.deadline_before_cast);
                    self.bad(t, "O9-timer", d);
                } else if !nilq {
                    self.hit("prevote_timeouts");
                }
            }
        }
        self.cast.insert((h, r, k), (hash.clone(), t));
        self.cast_inc.insert((h, r, k), (hash, t));
        self.hit(if k == 1 { "prevotes" } else { "precommits" });
    }

    fn lock_rule(&mut self, t: u64, what: &str, h: u64, r: u64, hash: &Hash) {
        if let Some((lh, lr, lhash)) = self.plock.clone() {
            if lh == h && lr < r {
                self.hit("locked_actions");
                if hash != &lhash && !self.release_seen(h, lr, &lhash) {
                    let d = format!(
                        "{} for {} at height {} round {}, locked on {} since round {} and no later prevote quorum seen",
                        what,
                        hx(hash),
                        h,
                        r,
                        hx(&lhash),
                        lr
                    );
                    self.bad(t, "M3-lock", d);
                }
            }
        }
    }

    /// The prevote must be for the lock, for the proposal, or nil at the timeout.
    fn prevote_value(&mut self, t: u64, h: u64, r: u64, hash: &Hash) {
        let prev_lock = self.lock_before_cast.clone();
        let props = self.ev_props.get(&(h, r)).cloned().unwrap_or_default();
        let leader = self.chain.leader(h, r) == self.me;
        let mut allowed: Vec<Hash> = vec![];
        let timeout = self.deadline_before_cast.map(|d| t >= d).unwrap_or(true) || self.was_busy || self.cfg_unsure || !self.exact_prevote();
        if leader {
            if let Some(p) = self.released.get(&(h, r, K_PROPOSAL)) {
                allowed.push(p.clone());
            } else {
                allowed.push(prev_lock.as_ref().map(|l| l.1.clone()).unwrap_or(nil()));
            }
        }
        for p in &props {
            let p = &p.proposal;
            match (&prev_lock, &p.lock) {
                (None, _) => allowed.push(p.block_hash.clone()),
                (Some(l), Some(pl)) if pl.lock_round >= l.0 => allowed.push(p.block_hash.clone()),
                (Some(l), _) => allowed.push(l.1.clone()),
            }
        }
        if (props.is_empty() && !leader) || timeout {
            allowed.push(prev_lock.as_ref().map(|l| l.1.clone()).unwrap_or(nil()));
        }
        if !allowed.contains(hash) {
            let d = format!(
                "prevote for {} at height {} round {}, lock {:?}, proposals {:?}",
                hx(hash),
                h,
                r,
                prev_lock.map(|l| (l.0, hx(&l.1))),
                props.iter().map(|p| hx(&p.proposal.block_hash)).collect::<Vec<_>>()
            );
            self.bad(t, "O1-value", d);
        }
    }
    fn exact_prevote(&self) -> bool {
        self.wal_failed.is_none()
    }

    fn on_own_qc(&mut self, t: u64, q: &AggregatedVote) {
        let k = tn(&q.vote_type);
        self.hit("own_certificates");
        self.at(t, "certificate", q.height, q.round);
        if q.leader != self.me {
            self.bad(t, "M5-leader", format!("certificate in the name of {}", hx(&q.leader)));
        }
        if self.suspended {
            if let Some(c) = self.cast.get(&(q.height, q.round, k)).map(|c| c.0.clone()) {
                if c == q.block_hash {
                    self.release(t, q.height, q.round, k, &c);
                }
            }
            return;
        }
        let members = self.chain.bitmap_members(q.height, &q.signature.address_bitmap);
        if q.signature.address_bitmap != self.chain.bitmap(q.height, &members) {
            self.bad(t, "M5-bitmap", format!("bitmap {:?} of height {}", q.signature.address_bitmap.as_ref(), q.height));
        }
        let w = self.chain.weight_of(q.height, &members);
        if !self.chain.quorum(q.height, w) {
            let d = format!("certificate of weight {} of {}", w, self.chain.total(q.height));
            self.bad(t, "M5-weight", d);
        } else if !self.chain.qc_valid(q) {
            self.bad(t, "M5-signature", "aggregated signature of the certificate is wrong".into());
        }
        for a in &members {
            let voted = if a == &self.me {
                self.cast.get(&(q.height, q.round, k)).map(|c| c.0 == q.block_hash).unwrap_or(false)
            } else {
                self.ev_votes
                    .get(&(q.height, q.round, k))
                    .and_then(|m| m.get(a))
                    .map(|s| s.contains(&q.block_hash))
                    .unwrap_or(false)
            };
            if !voted {
                let d = format!("certificate ({},{},{}) lists {} who did not vote so", q.height, q.round, hx(&q.block_hash), hx(a));
                self.bad(t, "M5-voter", d);
            }
        }
        if members.contains(&self.me) {
            self.release(t, q.height, q.round, k, &q.block_hash.clone());
            // own vote inside: its record must be durable
            let ok = self
                .saved
                .as_ref()
                .map(|s| s.height == q.height && s.round == q.round && s.step >= if k == 1 { S_PREVOTE } else { S_PRECOMMIT })
                .unwrap_or(false);
            if !ok {
                self.bad(t, "M2-vote", format!("certificate with an own vote, log at {:?}", self.saved.as_ref().map(|s| (s.height, s.round, s.step))));
            }
        }
        self.learn_qc(q);
        if self.chain.qc_valid(q) {
            self.acc.qcs.insert((q.height, q.round, k), AccQc { hash: q.block_hash.clone(), in_round: true });
        }
    }

    fn on_own_vote(&mut self, t: u64, to: &Option<Address>, v: &SignedVote) {
        let p = &v.vote;
        let k = tn(&p.vote_type);
        self.at(t, "vote", p.height, p.round);
        if v.voter != self.me || v.signature != sign_as(&self.me, &vote_payload(p.height, p.round, &p.vote_type, &p.block_hash)) {
            self.bad(t, "M11-signature", "own vote is not validly signed".into());
        }
        self.release(t, p.height, p.round, k, &p.block_hash.clone());
        if self.suspended {
            return;
        }
        let want = if k == 1 { S_PREVOTE } else { S_PRECOMMIT };
        match self.saved.clone() {
            Some(s) if s.height == p.height && s.round == p.round && s.step == want => {
                if k == 2 && !p.block_hash.is_empty() {
                    let ok = match &s.lock {
                        Some((lr, q, c)) => {
                            q.block_hash == p.block_hash
                                && q.height == p.height
                                && q.is_prevote_qc()
                                && q.round == *lr
                                && self.chain.qc_valid(q)
                                && (*lr == p.round || lr + 1 == p.round)
                                && hash_bytes(c) == p.block_hash
                        }
                        None => false,
                    };
                    if !ok {
                        self.bad(t, "M2-lock", format!("precommit for {} sent, log has lock {:?}", hx(&p.block_hash), s.lock.as_ref().map(|l| (l.0, hx(&l.1.block_hash)))));
                    }
                }
            }
            s => {
                let d = format!("vote of height {} round {} sent, log at {:?}", p.height, p.round, s.map(|s| (s.height, s.round, s.step)));
                self.bad(t, "M2-vote", d);
            }
        }
        let leader = self.chain.leader(p.height, p.round);
        if to.as_ref() != Some(&leader) && self.wal_failed != Some((p.height, p.round)) {
            let d = format!("vote of height {} round {} sent to {:?}, leader is {}", p.height, p.round, to.as_ref().map(|a| hx(a)), hx(&leader));
            self.bad(t, "M11-leader", d);
        }
        self.hit("votes_sent");
    }

    fn on_own_proposal(&mut self, t: u64, sp: &SignedProposal<Blk>) {
        let p = sp.proposal.clone();
        self.hit("own_proposals");
        self.at(t, "proposal", p.height, p.round);
        if self.chain.leader(p.height, p.round) != self.me && !self.suspended {
            self.bad(t, "M7-not-leader", format!("proposal of height {} round {} by a node that does not lead it", p.height, p.round));
        }
        if p.proposer != self.me || sp.signature != sign_as(&self.me, &proposal_payload(&p)) {
            self.bad(t, "M7-signature", "proposal in another name or with a bad signature".into());
        }
        if self.released.contains_key(&(p.height, p.round, K_PROPOSAL)) && self.released[&(p.height, p.round, K_PROPOSAL)] == p.block_hash {
            self.bad(t, "M7-twice", format!("second proposal at height {} round {}", p.height, p.round));
        }
        self.release(t, p.height, p.round, K_PROPOSAL, &p.block_hash);
        if self.suspended {
            return;
        }
        self.own_prop = Some((p.height, p.round, p.block_hash.clone(), p.lock.as_ref().map(|l| l.lock_round)));
        match &p.lock {
            None => {
                let ok = self
                    .got
                    .as_ref()
                    .map(|g| g.0 == p.height && g.1 == p.round && g.2 == p.content && g.3 == p.block_hash)
                    .unwrap_or(false);
                if !ok {
                    self.bad(t, "M7-block", format!("proposed {} is not the block just supplied for round {}", hx(&p.block_hash), p.round));
                }
            }
            Some(l) => {
                self.hit("own_locked_proposals");
                let q = &l.lock_votes;
                let ok = q.is_prevote_qc()
                    && q.height == p.height
                    && q.round == l.lock_round
                    && q.round < p.round
                    && q.block_hash == p.block_hash
                    && self.chain.qc_valid(q)
                    && p.content.hash() == p.block_hash;
                if !ok {
                    self.bad(t, "M7-lock", format!("proposal of {} with lock {} ({},{},{})", hx(&p.block_hash), l.lock_round, q.height, q.round, hx(&q.block_hash)));
                }
                if let Some((lh, lr, lhash)) = &self.plock {
                    if *lh == p.height && lhash == &p.block_hash && l.lock_round < *lr {
                        let d = format!("proposal with a lock of round {}, locked at {}", l.lock_round, lr);
                        self.bad(t, "M7-lock", d);
                    }
                }
            }
        }
        self.lock_rule(t, "proposal", p.height, p.round, &p.block_hash);
        let s = self.saved.clone();
        let ok = s
            .as_ref()
            .map(|s| s.height == p.height && s.round == p.round && s.step == S_PROPOSE && s.lock.as_ref().map(|l| l.0) == p.lock.as_ref().map(|l| l.lock_round))
            .unwrap_or(false);
        if !ok {
            self.bad(t, "M2-proposal", format!("proposal sent, log at {:?}", s.map(|s| (s.height, s.round, s.step, s.lock.map(|l| l.0)))));
        }
        if let Some(w) = &self.start.1 {
            if w.height == p.height && p.round <= w.round {
                let d = format!("proposal at round {} after a restart from round {}", p.round, w.round);
                self.bad(t, "M15-revote", d);
            }
        }
    }

    fn on_own_choke(&mut self, t: u64, c: &SignedChoke) {
        self.hit("own_chokes");
        let (h, r) = (c.choke.height, c.choke.round);
        self.at(t, "choke", h, r);
        if c.address != self.me || c.signature != sign_as(&self.me, &choke_payload(h, r)) {
            self.bad(t, "M8-signature", "own choke is not validly signed".into());
        }
        if self.suspended {
            return;
        }
        if r > 0 {
            self.hit("own_chokes_late_round");
            if !ends_round(&self.chain, &c.choke.from, h, r.saturating_sub(1)) {
                let d = format!("choke of height {} round {} carries {:?}", h, r, c.choke.from);
                self.bad(t, "M8-from", d);
            }
        }
        match &self.saved {
            Some(s) if s.height == h && s.round == r && s.step == S_BRAKE && s.from == c.choke.from => {}
            s => {
                let d = format!("choke of height {} round {} sent, log at {:?}", h, r, s.as_ref().map(|s| (s.height, s.round, s.step)));
                self.bad(t, "M2-choke", d);
            }
        }
        if self.exact && !self.cfg_unsure && !self.was_busy && self.wal_failed.is_none() {
            let due = match self.last_choke {
                Some(x) => Some(x + self.timeout(3)),
                None => {
                    if self.start.2 == t && self.start.1.as_ref().map(|w| w.step == S_BRAKE).unwrap_or(false) {
                        Some(t)
                    } else {
                        self.deadline_before_cast
                    }
                }
            };
            if due != Some(t) {
                self.bad(t, "O9-timer", format!("choke at {} ms, due at {:?}", t, due));
            }
            self.hit(if self.last_choke.is_some() { "brake_timeouts" } else { "precommit_timeouts" });
        }
        self.last_choke = Some(t);
        self.acc.chokes.entry((h, r)).or_default().insert(self.me.clone());
        self.ev_chokes.entry((h, r)).or_default().insert(self.me.clone());
    }

    fn on_commit(&mut self, t: u64, h: u64, c: &Commit<Blk>) {
        self.hit("commits");
        let q = AggregatedVote {
            signature: c.proof.signature.clone(),
            vote_type: VoteType::Precommit,
            height: c.proof.height,
            round: c.proof.round,
            block_hash: c.proof.block_hash.clone(),
            leader: self.me.clone(),
        };
        if c.height != h || c.proof.height != h {
            self.bad(t, "M6-height", format!("commit of height {} with commit {} and proof {}", h, c.height, c.proof.height));
        }
        if c.proof.block_hash.is_empty() || !self.chain.qc_valid(&q) {
            let m = self.chain.bitmap_members(h, &c.proof.signature.address_bitmap);
            let d = format!("proof of {} at height {} is not valid: weight {} of {}", hx(&c.proof.block_hash), h, self.chain.weight_of(h, &m), self.chain.total(h));
            self.bad(t, "M6-proof", d);
        }
        let from_wal = match &self.start.1 {
            Some(w) if w.height == h && w.step == S_COMMIT => {
                w.lock.as_ref().map(|l| l.1.block_hash == c.proof.block_hash && l.2 == c.content.bytes()).unwrap_or(false)
            }
            _ => false,
        };
        if !from_wal && !self.checked_content.contains(&(h, c.proof.block_hash.clone(), c.content.clone())) {
            let d = format!("content {:?} committed under {} at height {} has not passed the block check", c.content, hx(&c.proof.block_hash), h);
            self.bad(t, "M6-content", d);
        }
        if !self.suspended && (!self.pos_known || h != self.h) {
            let d = format!("commit of height {} while at height {}", h, self.h);
            self.bad(t, "M13-height", d);
        }
        let n = self.commits.entry(h).or_insert(0);
        *n += 1;
        if *n > 1 && self.commit_stuck != Some(h) {
            self.bad(t, "M6-twice", format!("height {} committed again", h));
        }
        let ok = match &self.saved {
            Some(s) => {
                s.height == h
                    && s.step == S_COMMIT
                    && s.lock
                        .as_ref()
                        .map(|l| l.1.block_hash == c.proof.block_hash && l.1.round == c.proof.round && !l.1.is_prevote_qc() && l.1.signature == c.proof.signature && l.2 == c.content.bytes())
                        .unwrap_or(false)
            }
            None => false,
        };
        if !ok {
            let d = format!("commit of height {}, log at {:?}", h, self.saved.as_ref().map(|s| (s.height, s.round, s.step)));
            self.bad(t, "M2-commit", d);
        }
        self.busy = Busy::Commit;
        self.was_busy = true;
        if c.proof.round > 0 {
            self.hit("commits_late_round");
        }
    }

    fn timeout(&self, step: usize) -> u64 {
        let base = self.interval * self.ratios[step] / 10;
        if step == 3 {
            base
        } else {
            base << self.r.min(5)
        }
    }
    /// When the current step times out.
    pub fn deadline(&self) -> Option<u64> {
        if !self.alive || !self.pos_known || self.outsider {
            return None;
        }
        match self.step {
            S_PROPOSE | S_PREVOTE | S_PRECOMMIT => Some(self.since + self.timeout(self.step as usize)),
            S_BRAKE => self.last_choke.map(|c| c + self.timeout(3)),
            _ => None,
        }
    }

    fn on_wal(&mut self, t: u64, rec: &WalRec, ok: bool) {
        if let Some(l) = &rec.lock {
            if rec.step != S_COMMIT && rec.height == self.h {
                let good = l.1.is_prevote_qc() && l.1.height == rec.height && l.1.round == l.0 && self.chain.qc_valid(&l.1) && hash_bytes(&l.2) == l.1.block_hash;
                if !good && !self.suspended {
                    self.bad(t, "M2-record", format!("log record with lock {} ({},{},{})", l.0, l.1.height, l.1.round, hx(&l.1.block_hash)));
                }
            }
        }
        let new_height = rec.height != self.h || !self.pos_known;
        if self.pos_known && rec.height < self.h {
            self.bad(t, "M13-height", format!("log record of height {} after height {}", rec.height, self.h));
        }
        if new_height {
            if !self.announced.contains(&rec.height) {
                self.bad(t, "M13-unannounced", format!("entered height {} that no status announced", rec.height));
            }
            if rec.step != S_PROPOSE || rec.round != 0 {
                self.bad(t, "M13-entry", format!("entered height {} at round {} step {}", rec.height, rec.round, rec.step));
            }
            if !self.chain.is_member(rec.height, &self.me) {
                self.bad(t, "M12-outsider", format!("log record of height {} whose list does not have the node", rec.height));
            }
            self.enter_height(t, rec.height);
        } else if rec.round != self.r {
            if rec.round < self.r {
                self.bad(t, "M9-position", format!("log record of round {} after round {}", rec.round, self.r));
            }
            if rec.step != S_PROPOSE {
                self.bad(t, "M9-position", format!("entered round {} at step {}", rec.round, rec.step));
            }
            self.enter_round(t, rec);
        } else if rec.step == S_PROPOSE && self.step == S_PROPOSE && rec.round == 0 {
            // the second record on entering a height
        } else if rec.step < self.step && rec.step != S_BRAKE {
            self.bad(t, "M9-position", format!("log record of step {} after step {} in round {}", rec.step, self.step, rec.round));
        }
        // the lock is not lost
        if rec.step != S_COMMIT && !self.suspended {
            if let Some((lh, lr, lhash)) = self.plock.clone() {
                if lh == rec.height {
                    let ok = match &rec.lock {
                        Some(l) => (l.1.block_hash == lhash && l.0 >= lr) || self.release_seen(lh, lr, &lhash),
                        None => self.release_seen(lh, lr, &lhash),
                    };
                    if !ok {
                        let d = format!("log record ({},{},{}) without the lock on {} of round {}", rec.height, rec.round, rec.step, hx(&lhash), lr);
                        self.bad(t, "M2-lock-lost", d);
                    }
                }
            }
        }
        if ok {
            self.saved = Some(rec.clone());
        } else {
            self.wal_failed = Some((rec.height, rec.round));
            if rec.step == S_COMMIT {
                self.stuck_at = Some(rec.height);
            }
            self.hit("failed_log_writes");
        }
        // cast?
        self.step_before_cast = self.step;
        self.deadline_before_cast = self.deadline();
        self.lock_before_cast = self.lock.clone();
        if rec.step != S_COMMIT {
            self.lock = rec.lock.as_ref().map(|l| (l.0, l.1.block_hash.clone()));
        }
        let k = match rec.step {
            S_PREVOTE => 1,
            S_PRECOMMIT => 2,
            _ => 0,
        };
        if k > 0 {
            if let Some((h, r, kk, hash)) = self.last_sign.clone() {
                if ok && h == rec.height && r == rec.round && kk == k && self.cast_inc.get(&(h, r, k)).is_none() {
                    self.on_cast(t, h, r, k, hash);
                }
            }
            if !ok {
                self.last_sign = None;
            }
        }
        if rec.step != self.step {
            self.step = rec.step;
            self.since = t;
            if rec.step != S_COMMIT {
                self.was_busy = self.late_at == Some(t);
            }
            if rec.step == S_BRAKE {
                self.last_choke = None;
            }
        }
        self.from = Some(rec.from.clone());
    }

    fn enter_height(&mut self, t: u64, h: u64) {
        self.vc_missing(t);
        // pacing
        if let Some((ch, rt)) = self.commit_ret {
            if ch + 1 == h && !self.suspended {
                if self.chain.leader(h, 0) == self.me {
                    if let (Some(hs), true) = (self.hs, !self.cfg_unsure) {
                        let want = rt.max(hs + self.interval);
                        let off = |want: u64| t + 1 < want || t > want + 1;
                        let other = self.hs_unsure && self.hs_alt.iter().any(|o| o.map(|o| !off(rt.max(o + self.interval))).unwrap_or(true));
                        if off(want) && !other {
                            let d = format!("leader of height {} starts at {} ms, commit returned at {}, last proposal at {}, interval {}", h, t, rt, hs, self.interval);
                            self.bad(t, "M14-pacing", d);
                        }
                        self.hit(if want > rt { "paced_starts" } else { "unpaced_leader_starts" });
                    }
                } else if t > rt + 1 {
                    let d = format!("height {} starts at {} ms, commit returned at {} and the node does not lead it", h, t, rt);
                    self.bad(t, "M14-pacing", d);
                }
            }
        }
        self.hit("heights_entered");
        if self.vcs.iter().any(|v| v.3 > self.entered_r) && self.pos_known {
            let d = format!("view change {:?} reported on entering height {}", self.vcs.last(), h);
            self.bad(t, "M10-spurious", d);
        }
        self.commit_ret = None;
        self.suspended = false;
        if self.h > 0 && self.chain.sorted(self.h) != self.chain.sorted(h) {
            self.hit("list_changes");
        }
        if self.early_pos.contains(&(h, 0)) {
            self.hit("early_messages");
        }
        self.outsider = false;
        self.pos_known = true;
        let before = self.h;
        self.h = h;
        self.r = 0;
        self.step = S_PROPOSE;
        self.since = t;
        self.entered_r = t;
        self.busy = Busy::No;
        self.was_busy = false;
        self.lock = None;
        self.last_choke = None;
        self.vcs.clear();
        self.hs = Some(t);
        self.entered_h = t;
        self.hs_unsure = false;
        self.wal_failed = None;
        self.app_failed = None;
        self.commit_stuck = None;
        self.got = None;
        self.adopt(before, h);
        self.lost &= self.start.0 >= h;
        if h > self.model_h {
            self.model_h = h;
        }
    }

    /// Interval and ratios in force at height `h`: those of the latest status that stated any, of
    /// all that moved the node on from height `from`, also past heights it is no validator of.
    fn adopt(&mut self, from: u64, h: u64) {
        let anns = std::mem::take(&mut self.anns);
        let mine = anns.iter().position(|a| a.1.height == h);
        let mine = match mine {
            Some(i) => i,
            None => return,
        };
        let when = anns[mine].0;
        let mut last = (0, from);
        let mut skipped = false;
        for (t, s, answer) in anns.iter() {
            if s.height <= from || s.height >= h || self.chain.is_member(s.height, &self.me) {
                continue;
            }
            if s.interval.is_none() && s.timer_config.is_none() {
                if *t < when && s.height > last.1 {
                    last = (*t, s.height);
                }
            } else if *t < when && s.height > last.1 && *t > last.0 {
                last = (*t, s.height);
                self.take_settings(s);
                skipped = true;
            } else if *t == when || *t == last.0 || *answer {
                self.cfg_unsure = true;
            }
        }
        let s = anns[mine].1.clone();
        if s.interval.is_some() && s.timer_config.is_some() {
            self.cfg_unsure = false;
        }
        if skipped && (s.interval.is_none() || s.timer_config.is_none()) {
            self.hit("settings_announced_while_outside");
        }
        if s.interval.is_none() {
            self.hit("heights_with_settings_unchanged");
        }
        self.take_settings(&s);
        self.anns = anns.into_iter().filter(|a| a.1.height > h).collect();
    }

    fn take_settings(&mut self, s: &Status) {
        if let Some(i) = s.interval {
            self.interval = i;
        }
        if s.timer_config.is_some() {
            self.ratios = ratios(&s.timer_config);
        }
    }

    fn enter_round(&mut self, t: u64, rec: &WalRec) {
        let (h, r, old) = (rec.height, rec.round, self.r);
        self.hs_unsure |= self.hs == Some(t) && self.entered_h != t;
        self.hit("rounds_entered");
        if !self.round_end_seen(h, r.saturating_sub(1)) && !self.suspended {
            self.bad(t, "M9-no-certificate", format!("entered round {} of height {} without a certificate that ends round {}", r, h, r.saturating_sub(1)));
        }
        // exactly one truthful view-change report
        self.vc_missing(t);
        let vcs = std::mem::take(&mut self.vcs);
        let (kind, fr) = match &rec.from {
            UpdateFrom::PrevoteQC(q) => ("PrevoteQC", q.round),
            UpdateFrom::PrecommitQC(q) => ("PrecommitQC", q.round),
            UpdateFrom::ChokeQC(q) => ("ChokeQC", q.round),
        };
        let mut wrong = vec![];
        if fr != old {
            self.hit("round_jumps");
        } else if !self.suspended {
            for x in REASONS.iter().chain(vcs.iter().map(|v| &v.2[..]).collect::<Vec<_>>().iter()) {
                if let Some(why) = self.reason_lies(h, old, x, kind) {
                    wrong.push((x.to_string(), why));
                }
            }
        }
        let due = VcDue {
            h,
            old,
            new: r,
            kind,
            want: if fr != old { Some(format!("UpdateFromHigher{}({}, {})", kind, old, fr)) } else { None },
            wrong,
            any: self.suspended,
        };
        if vcs.is_empty() {
            // It may follow the record of the new round.
            self.vc_due = Some(due);
        } else if vcs.len() != 1 {
            self.bad(t, "M10-count", format!("{} view-change reports between round {} and {}: {:?}", vcs.len(), old, r, vcs));
        } else {
            self.judge_vc(t, &due, vcs[0].clone());
        }
        if !ends_round(&self.chain, &rec.from, h, r.saturating_sub(1)) && !self.suspended {
            self.bad(t, "M8-from", format!("round {} of height {} entered with {:?}", r, h, rec.from));
        }
        if self.early_pos.contains(&(h, r)) {
            self.hit("early_messages");
        }
        self.r = r;
        self.step = S_PROPOSE;
        self.since = t;
        self.entered_r = t;
        self.was_busy = self.late_at == Some(t);
        self.last_choke = None;
        self.wal_failed = None;
        self.app_failed = None;
        self.got = None;
    }

    fn vc_missing(&mut self, t: u64) {
        if let Some(d) = self.vc_due.take() {
            self.bad(t, "M10-count", format!("no view-change report between round {} and {} of height {}", d.old, d.new, d.h));
        }
    }

    fn judge_vc(&mut self, t: u64, d: &VcDue, (vh, vr, reason, _): (u64, u64, String, u64)) {
        if (vh, vr) != (d.h, d.old) {
            self.bad(t, "M10-position", format!("view change of height {} round {} reported on leaving ({},{})", vh, vr, d.h, d.old));
        }
        if let Some(want) = &d.want {
            if &reason != want {
                self.bad(t, "M10-reason", format!("reason {} on leaving round {}, expected {}", reason, d.old, want));
            }
        } else if let Some((_, why)) = d.wrong.iter().find(|x| x.0 == reason) {
            self.bad(t, "M10-reason", format!("reason {} on leaving round {} of height {} by a {}, but {}", reason, d.old, d.h, d.kind, why));
        } else if !d.any && !REASONS.contains(&&reason[..]) {
            self.bad(t, "M10-reason", format!("reason {} on leaving round {} of height {} by a {}, which is no such reason", reason, d.old, d.h, d.kind));
        }
        self.hit("view_changes");
    }

    fn reason_lies(&self, h: u64, r: u64, reason: &str, kind: &str) -> Option<String> {
        let leads = self.chain.leader(h, r) == self.me;
        let nonnil = self.hashes_seen(h, r, 1).iter().any(|x| !x.is_empty() && self.quorum_seen(h, r, 1, x));
        // What came before the node was at this height may still be in the queue of messages to verify
        // unless it came to rest here.
        let rested = self.settled.0 == h;
        let acc_nonnil = rested && self.acc.qcs.get(&(h, r, 1)).map(|q| !q.hash.is_empty()).unwrap_or(false);
        let props = self.ev_props.get(&(h, r)).cloned().unwrap_or_default();
        let acc_prop = rested && self.acc.props.get(&(h, r)).map(|v| v.len() == 1).unwrap_or(false);
        if leads {
            if self.wal_failed == Some((h, r)) {
                return None;
            }
            return match reason {
                "LeaderReceivedVoteBelowThreshold(Prevote)" if acc_nonnil => Some("it had a prevote quorum".into()),
                "LeaderReceivedVoteBelowThreshold(Prevote)" => None,
                "LeaderReceivedVoteBelowThreshold(Precommit)" if !nonnil => Some("it had no prevote quorum".into()),
                "LeaderReceivedVoteBelowThreshold(Precommit)" => None,
                _ => Some("the node led the round".into()),
            };
        }
        let acc_checked = acc_prop && props.iter().all(|p| self.checked_settled.contains(&(h, p.proposal.block_hash.clone())));
        let any_checked = props.iter().any(|p| self.checked.contains(&(h, p.proposal.block_hash.clone())));
        let acc_pv = rested && self.acc.qcs.contains_key(&(h, r, 1)) || kind == "PrevoteQC";
        let acc_pc = rested && self.acc.qcs.contains_key(&(h, r, 2)) || kind == "PrecommitQC";
        let any_pv = self.hashes_seen(h, r, 1).iter().any(|x| self.quorum_seen(h, r, 1, x));
        let any_pc = self.hashes_seen(h, r, 2).iter().any(|x| self.quorum_seen(h, r, 2, x));
        match reason {
            "NoProposalFromNetwork" if acc_prop => Some("it had the proposal".into()),
            "CheckBlockNotPass" if acc_checked => Some("the check had passed".into()),
            "CheckBlockNotPass" if props.is_empty() => Some("there was no proposal to check".into()),
            "NoPrevoteQCFromNetwork" if acc_pv => Some("it had a prevote certificate".into()),
            "NoPrecommitQCFromNetwork" if acc_pc => Some("it had a precommit certificate".into()),
            "Others" if props.is_empty() || !any_checked || !any_pv || !any_pc => Some("something was missing".into()),
            "NoProposalFromNetwork" | "CheckBlockNotPass" | "NoPrevoteQCFromNetwork" | "NoPrecommitQCFromNetwork" | "Others" => None,
            _ => Some("that is no such reason".into()),
        }
    }

    pub fn feed(&mut self, t: u64, e: &Ev) {
        match e {
            Ev::Start { init, wal, lost } => {
                self.alive = true;
                self.start = (*init, wal.clone(), t);
                self.acc = Acc::default();
                self.inbox.clear();
                self.checked.clear();
                self.checked_content.clear();
                self.checked_settled.clear();
                self.commits.clear();
                self.cast_inc.clear();
                self.vc_due = None;
                self.own_prop = None;
                self.last_sign = None;
                self.vcs.clear();
                self.got = None;
                self.busy = Busy::No;
                self.was_busy = false;
                self.wal_failed = None;
                self.app_failed = None;
                self.commit_stuck = None;
                self.stuck_at = None;
                self.commit_ret = None;
                self.last_choke = None;
                self.announced.clear();
                self.anns.clear();
                self.cfg_unsure = false;
                self.lost = *lost;
                self.stopped = None;
                let ep = self.chain.epoch(*init).clone();
                self.interval = ep.interval;
                self.ratios = ratios(&ep.config);
                self.hs = Some(t);
                self.hs_unsure = false;
                self.saved = wal.clone();
                self.lock = None;
                self.from = None;
                self.outsider = !self.chain.is_member(*init, &self.me);
                self.suspended = false;
                self.since = t;
                self.entered_r = t;
                match wal {
                    _ if *lost => {
                        // silent until a status announces a later height
                        self.pos_known = false;
                        self.suspended = true;
                        self.h = *init;
                        self.r = 0;
                        self.step = S_PROPOSE;
                        self.model_h = *init;
                        self.hit("starts_without_readable_log");
                    }
                    Some(w) if !self.outsider => {
                        self.pos_known = true;
                        self.h = w.height;
                        self.r = w.round;
                        self.step = w.step;
                        self.from = Some(w.from.clone());
                        self.suspended = w.height != *init && self.chain.sorted(w.height) != self.chain.sorted(*init);
                        if w.height != *init {
                            // timer settings of another height
                            self.was_busy = true;
                        }
                        self.model_h = w.height;
                        if w.step == S_BRAKE {
                            self.last_choke = None;
                        }
                        if let Some(l) = &w.lock {
                            if w.step != S_COMMIT {
                                self.lock = Some((l.0, l.1.block_hash.clone()));
                                if self.plock.as_ref().map(|p| p.0 != w.height || p.1 < l.0).unwrap_or(true) {
                                    self.plock = Some((w.height, l.0, l.1.block_hash.clone()));
                                }
                            }
                            self.learn_qc(&l.1.clone());
                        }
                        self.learn_from(&w.from.clone());
                        if w.round > 0 {
                            // trusted: the record proves the round
                            self.ev_choke_qcs.insert((w.height, w.round.saturating_sub(1)));
                        }
                        self.hit("restarted");
                        self.hit(match w.step {
                            S_PROPOSE => "restarts_propose",
                            S_PREVOTE => "restarts_prevote",
                            S_PRECOMMIT => "restarts_precommit",
                            S_BRAKE => "restarts_brake",
                            _ => "restarts_commit",
                        });
                        self.brake_due = true;
                    }
                    _ => {
                        self.pos_known = *init != 0 && !self.outsider;
                        self.h = *init;
                        self.r = 0;
                        self.step = S_PROPOSE;
                        self.model_h = *init;
                    }
                }
                self.settled = (self.h, self.r, self.step, t);
            }
            Ev::In(m) => {
                self.learn(m);
                if let OverlordMsg::RichStatus(s) = m {
                    self.anns.push((t, s.clone(), false));
                }
                let early = match m {
                    OverlordMsg::SignedVote(v) if vote_ok(&self.chain, v) => Some((v.vote.height, v.vote.round)),
                    OverlordMsg::AggregatedVote(q) if self.chain.qc_valid(q) => Some((q.height, q.round)),
                    OverlordMsg::SignedProposal(p) if proposal_ok(&self.chain, p) => Some((p.proposal.height, p.proposal.round)),
                    _ => None,
                };
                if let Some(e) = early.filter(|e| self.pos_known && *e > (self.h, self.r)) {
                    self.early_pos.insert(e);
                }
                if let OverlordMsg::SignedProposal(p) = m {
                    // pacing: an acceptable, first proposal of this height
                    let k = (p.proposal.height, p.proposal.round);
                    if k.0 == self.h && k.1 >= self.r && proposal_ok(&self.chain, p) {
                        let first = self.ev_props.get(&k).map(|v| v.len()).unwrap_or(0) <= 1;
                        if self.busy == Busy::No && first && k.1 <= self.r + 10 {
                            if self.hs != Some(t) {
                                if !self.hs_unsure {
                                    self.hs_alt.clear();
                                }
                                self.hs_alt.push(self.hs);
                                self.hs_unsure = false;
                            }
                            self.hs = Some(t);
                        } else if !first || self.busy != Busy::No || k.1 > self.r + 10 {
                            self.hs = None;
                        }
                    }
                }
                if self.alive {
                    self.inbox.push((t, m.clone()));
                }
                if matches!(m, OverlordMsg::Stop) && self.stopped.is_none() {
                    self.stopped = Some(t);
                }
            }
            Ev::Out { to, msg } => {
                if let Some((h, _)) = msg_pos(msg) {
                    if !self.chain.is_member(h, &self.me) || self.outsider {
                        self.bad(t, "M12-outsider", format!("outsider sends {}", msg_s(msg)));
                    }
                }
                match msg {
                    OverlordMsg::SignedVote(v) => self.on_own_vote(t, to, v),
                    OverlordMsg::SignedProposal(p) => self.on_own_proposal(t, p),
                    OverlordMsg::AggregatedVote(q) => self.on_own_qc(t, q),
                    OverlordMsg::SignedChoke(c) => self.on_own_choke(t, c),
                    m => {
                        self.bad(t, "M13-height", format!("sends {}", msg_s(m)));
                    }
                }
                if to.is_some() != matches!(msg, OverlordMsg::SignedVote(_)) {
                    self.bad(t, "M11-leader", format!("{} sent to {:?}", msg_s(msg), to.as_ref().map(|a| hx(a))));
                }
            }
            Ev::WalSave { rec: Some(rec), ok } => {
                if self.outsider && rec.height <= self.model_h && !self.chain.is_member(rec.height, &self.me) {
                    self.bad(t, "M12-outsider", format!("outsider writes a log record of height {}", rec.height));
                }
                self.on_wal(t, rec, *ok);
            }
            Ev::WalSave { rec: None, .. } => {
                self.bad(t, "M2-record", "log record cannot be decoded".into());
            }
            Ev::Sign(pre) => {
                if let Some((h, r, k, hash)) = parse_vote(pre) {
                    if self.outsider {
                        self.bad(t, "M12-outsider", format!("outsider signs a vote of height {}", h));
                    }
                    if !self.suspended && self.pos_known && h != self.h {
                        self.bad(t, "M13-height", format!("signs a vote of height {} at height {}", h, self.h));
                    }
                    let late = self
                        .saved
                        .as_ref()
                        .map(|s| s.height == h && s.round == r && s.step == if k == 1 { S_PREVOTE } else { S_PRECOMMIT })
                        .unwrap_or(false);
                    if late && self.cast_inc.get(&(h, r, k)).is_none() && self.start.1.as_ref() != self.saved.as_ref() {
                        self.on_cast(t, h, r, k, hash.clone());
                    }
                    self.last_sign = Some((h, r, k, hash));
                }
            }
            Ev::GetBlockStart { .. } => {
                self.busy = Busy::GetBlock;
                self.busy_from = t;
            }
            Ev::GetBlock { h, res } => {
                if self.busy == Busy::GetBlock {
                    self.busy = Busy::No;
                }
                if self.pos_known && *h != self.h && !self.suspended {
                    self.bad(t, "M7-block", format!("asks for a block of height {} at height {}", h, self.h));
                }
                if self.outsider {
                    self.bad(t, "M12-outsider", "outsider asks for a block".into());
                }
                match res {
                    Some((b, hash)) => self.got = Some((*h, self.r, b.clone(), hash.clone())),
                    None => self.app_failed = Some((self.h, self.r)),
                }
                if t > self.busy_from {
                    self.late_at = Some(t);
                }
                if t > self.since {
                    self.was_busy = true;
                }
            }
            Ev::CheckStart { .. } => {}
            Ev::CheckDone { h, hash, blk, ok } => {
                if *ok {
                    self.checked.insert((*h, hash.clone()));
                    self.checked_content.insert((*h, hash.clone(), blk.clone()));
                } else {
                    self.hit("failed_checks");
                }
            }
            Ev::Commit { h, commit } => {
                self.hs_unsure |= self.hs == Some(t) && self.entered_h != t;
                self.on_commit(t, *h, commit)
            }
            Ev::CommitRet { h, status } => match status {
                Some(s) => {
                    self.announced.insert(s.height);
                    self.anns.push((t, s.clone(), true));
                    self.busy = if self.chain.leader(s.height, 0) == self.me { Busy::Pacing } else { Busy::No };
                    self.commit_ret = Some((*h, t));
                    if s.height > self.model_h {
                        self.model_h = s.height;
                    }
                    if !self.chain.is_member(s.height, &self.me) {
                        self.busy = Busy::No;
                    }
                }
                None => {
                    self.busy = Busy::No;
                    self.commit_stuck = Some(*h);
                }
            },
            Ev::ViewChange { h, r, reason } => {
                if self.outsider {
                    self.bad(t, "M12-outsider", "outsider reports a view change".into());
                }
                match self.vc_due.take() {
                    Some(d) => self.judge_vc(t, &d, (*h, *r, reason.clone(), t)),
                    None => self.vcs.push((*h, *r, reason.clone(), t)),
                }
            }
            Ev::Crash => {
                self.alive = false;
                self.vc_due = None;
                self.busy = Busy::No;
            }
            Ev::Returned => {
                self.alive = false;
            }
            Ev::Err(_) | Ev::Note(_) => {}
        }
    }

    // ------------------------------------------------------------ judging silence

    /// Called when nothing is left to do at this instant (and at least a millisecond has passed
    /// since the last delivery).
    pub fn settle(&mut self, t: u64) {
        if !self.alive || self.stopped.is_some() {
            self.inbox.clear();
            return;
        }
        if self.busy != Busy::No {
            return;
        }
        let (h0, r0, step0, _t0) = self.settled;
        self.vc_missing(t);
        let inbox = std::mem::take(&mut self.inbox);
        let mut statuses = vec![];
        for (_, m) in &inbox {
            if let OverlordMsg::RichStatus(s) = m {
                statuses.push(s.height);
            }
        }
        for s in statuses {
            if s > self.model_h {
                self.model_h = s;
            }
        }
        // heights
        let member = self.chain.is_member(self.model_h, &self.me);
        if !member {
            if self.pos_known || self.model_h > 0 {
                self.outsider = true;
                self.hit("outsider_settles");
            }
            self.settled = (self.h, self.r, self.step, t);
            return;
        }
        if self.model_h > 0 && (!self.pos_known || self.h != self.model_h) && !self.suspended {
            self.bad(t, "O11-height", format!("at height {} although height {} was announced", self.h, self.model_h));
            self.settled = (self.h, self.r, self.step, t);
            return;
        }
        if !self.pos_known || self.suspended {
            self.settled = (self.h, self.r, self.step, t);
            return;
        }
        let (h, r) = (self.h, self.r);
        let same = h0 == h;
        let stay = same && r0 == r;
        let window = |mh: u64, mr: u64| -> bool {
            if mh == h {
                if mr < r {
                    return false;
                }
                if same {
                    mr <= r0 + 10
                } else {
                    mh <= h0 + 5 && mr <= 10 && mr <= r + 10
                }
            } else {
                mh > h && mh <= h0 + 5 && mr <= 10
            }
        };
        let stuck = self.commits.get(&h).copied().unwrap_or(0) > 0 || self.stuck_at == Some(h);
        let failed = self.wal_failed.is_some() || self.app_failed.is_some();
        for (_, m) in &inbox {
            match m {
                OverlordMsg::SignedProposal(p) => {
                    let k = (p.proposal.height, p.proposal.round);
                    if proposal_ok(&self.chain, p) && window(k.0, k.1) {
                        let e = self.acc.props.entry(k).or_default();
                        if !e.contains(p) {
                            e.push(p.clone());
                        }
                    }
                }
                OverlordMsg::SignedVote(v) => {
                    if vote_ok(&self.chain, v) && window(v.vote.height, v.vote.round) {
                        let k = (v.vote.height, v.vote.round, tn(&v.vote.vote_type));
                        self.acc.votes.entry(k).or_default().entry(v.voter.clone()).or_default().insert(v.vote.block_hash.clone());
                        if stay && k.0 == h && k.1 == r {
                            self.acc.votes_in_round.insert(k);
                        }
                    }
                }
                OverlordMsg::AggregatedVote(q) => {
                    if self.chain.qc_valid(q) {
                        self.accept_qc(t, q, (h0, r0, step0), stuck, failed);
                    }
                }
                OverlordMsg::SignedChoke(c) => {
                    if choke_ok(&self.chain, c) && c.choke.height == h && same {
                        if c.choke.round == r && stay {
                            self.acc.chokes.entry((h, r)).or_default().insert(c.address.clone());
                            self.hit("chokes_counted");
                        } else if c.choke.round > r {
                            self.follow(t, &c.choke.from, (r0, step0), stuck, failed);
                        }
                    }
                }
                _ => {}
            }
        }
        self.obligations(t, stuck, failed);
        self.checked_settled = self.checked.clone();
        self.settled = (self.h, self.r, self.step, t);
    }

    fn accept_qc(&mut self, t: u64, q: &AggregatedVote, before: (u64, u64, u8), stuck: bool, failed: bool) {
        let (h0, r0, step0) = before;
        let (h, r) = (self.h, self.r);
        let k = tn(&q.vote_type);
        let key = (q.height, q.round, k);
        let early_ok = q.height < h0 + 5 && q.round < 10;
        if q.height < h || (q.height > h0 && !early_ok) {
            return;
        }
        let was_checked = q.block_hash.is_empty() || self.checked_settled.contains(&(q.height, q.block_hash.clone()));
        if q.height == h && h0 == h {
            // jumps and direct reactions
            if q.round > r && k == 1 && was_checked && !stuck {
                self.bad(t, "O2-jump", format!("prevote certificate of round {} received in round {}", q.round, r));
            }
            if q.round >= r && k == 2 && q.block_hash.is_empty() && !stuck {
                self.bad(t, "O5-nil", format!("nil precommit certificate of round {} received, still in round {}", q.round, r));
            }
            if k == 1 && was_checked && !stuck && !failed && q.round > r0 && r == q.round + 1 && self.from_kind() == Some(("PrevoteQC", q.round)) {
                // came in by this certificate: precommits its block here
                self.hit("jump_precommits");
                let c = self.cast.get(&(h, r, 2)).map(|c| c.0.clone());
                if c.as_ref() != Some(&q.block_hash) && self.start.1.as_ref().map(|w| (w.height, w.round) != (h, r)).unwrap_or(true) {
                    let d = format!("entered round {} on the prevote certificate for {}, precommit is {:?}", r, hx(&q.block_hash), c.map(|c| hx(&c)));
                    self.bad(t, "O2-jump", d);
                }
            }
            if k == 1 && q.round == r && r0 == r && step0 <= S_PREVOTE && was_checked && !stuck && !failed {
                let c = self.cast_inc.get(&(h, r, 2)).cloned();
                if let Some((x, ct)) = c {
                    // not if the prevote timeout fired in between
                    if x != q.block_hash && self.deadline_of_cast.map(|d| d != ct).unwrap_or(true) {
                        let d = format!("prevote certificate for {} received, precommit is {}", hx(&q.block_hash), hx(&x));
                        self.bad(t, "O2-value", d);
                    }
                }
            }
        }
        if k == 1 && q.height == h && q.round < r {
            return;
        }
        if k == 2 && q.block_hash.is_empty() && q.height == h && q.round < r {
            return;
        }
        let in_round = h0 == h && r0 == r && q.height == h && q.round == r;
        let e = self.acc.qcs.entry(key).or_insert(AccQc { hash: q.block_hash.clone(), in_round });
        e.in_round |= in_round;
        self.hit("certificates_accepted");
        if q.height > h || q.round > r {
            self.hit("early_certificates");
        }
    }

    fn from_kind(&self) -> Option<(&'static str, u64)> {
        Some(match self.from.as_ref()? {
            UpdateFrom::PrevoteQC(q) => ("PrevoteQC", q.round),
            UpdateFrom::PrecommitQC(q) => ("PrecommitQC", q.round),
            UpdateFrom::ChokeQC(q) => ("ChokeQC", q.round),
        })
    }

    fn follow(&mut self, t: u64, f: &UpdateFrom, before: (u64, u8), stuck: bool, _failed: bool) {
        let (r0, step0) = before;
        let (h, r) = (self.h, self.r);
        if stuck {
            return;
        }
        let lag = match f {
            UpdateFrom::PrevoteQC(q) => {
                if !q.is_prevote_qc() || q.height != h || !self.chain.qc_valid(q) || r > q.round {
                    return;
                }
                let checked = q.block_hash.is_empty() || self.checked_settled.contains(&(h, q.block_hash.clone()));
                let braked = step0 == S_BRAKE && r0 == r;
                (q.round > r && checked) || braked
            }
            UpdateFrom::PrecommitQC(q) => {
                if q.is_prevote_qc() || q.height != h || !self.chain.qc_valid(q) || !q.block_hash.is_empty() {
                    return;
                }
                q.round >= r
            }
            UpdateFrom::ChokeQC(q) => q.height == h && self.chain.choke_qc_valid(q) && q.round >= r,
        };
        self.hit("chokes_to_follow");
        if lag {
            self.bad(t, "O7-follow", format!("still in round {} after a choke that proves a later one: {:?}", r, f));
        }
    }

    fn obligations(&mut self, t: u64, stuck: bool, failed: bool) {
        let (h, r) = (self.h, self.r);
        let lead = self.chain.leader(h, r) == self.me;
        let resumed = self.start.1.as_ref().map(|w| (w.height, w.round) == (h, r)).unwrap_or(false);
        let fresh_start = self.start.1.is_none() && self.start.0 == h && r == 0;
        if !self.vcs.is_empty() {
            let d = format!("view changes {:?} reported without leaving the round", self.vcs);
            self.bad(t, "M10-spurious", d);
            self.vcs.clear();
        }
        // restart obligations
        if std::mem::take(&mut self.brake_due) {
            match self.start.1.as_ref().map(|w| w.step) {
                Some(S_BRAKE) if resumed && !failed && self.last_choke.is_none() && self.step == S_BRAKE => {
                    self.bad(t, "O10-brake", "restarted from a brake record, no choke sent".into());
                }
                Some(S_COMMIT) if self.start.1.as_ref().map(|w| w.height) == Some(h) && !failed && !stuck => {
                    self.bad(t, "O10-commit", "restarted from a commit record, nothing committed".into());
                }
                _ => {}
            }
        }
        // commit
        if !stuck {
            for (k, q) in self.acc.qcs.iter() {
                if k.0 == h && k.2 == 2 && !q.hash.is_empty() && self.checked.contains(&(h, q.hash.clone())) && !failed {
                    let d = format!("precommit certificate of round {} for the accepted block {} held, not committed", k.1, hx(&q.hash));
                    self.v.push(V { rule: "O3-commit", detail: d, t });
                    break;
                }
            }
        }
        if stuck {
            return;
        }
        // leaving the round
        if let Some(q) = self.acc.qcs.get(&(h, r, 2)) {
            if q.hash.is_empty() && q.in_round {
                self.bad(t, "O5-nil", format!("nil precommit certificate of round {} held, still there", r));
            }
        }
        let chokes = self.acc.chokes.get(&(h, r)).map(|s| s.len()).unwrap_or(0);
        if chokes * 3 > self.chain.n(h) * 2 {
            self.bad(t, "O6-chokes", format!("{} of {} chokes of round {} held, still there", chokes, self.chain.n(h), r));
        }
        if failed {
            return;
        }
        // prevote
        if self.step == S_PROPOSE {
            if !lead && self.acc.props.contains_key(&(h, r)) {
                self.bad(t, "O1-prevote", format!("valid proposal of round {} held, no prevote", r));
            }
            if lead && !resumed && !fresh_start {
                self.bad(t, "O8-propose", format!("leads round {} of height {} and did not propose", r, h));
            }
        }
        if lead && !resumed && !fresh_start && !self.released.contains_key(&(h, r, K_PROPOSAL)) {
            self.bad(t, "O8-propose", format!("leads round {} of height {} and did not propose", r, h));
        }
        // precommit
        if self.step <= S_PREVOTE {
            if let Some(q) = self.acc.qcs.get(&(h, r, 1)).cloned() {
                if self.is_checked(h, &q.hash) && (self.step == S_PREVOTE || q.in_round) {
                    let d = format!("prevote certificate of round {} for {} held and accepted, no precommit", r, hx(&q.hash));
                    self.bad(t, "O2-precommit", d);
                }
            }
        }
        // own certificates
        if lead {
            for k in [1u8, 2] {
                // held already, also when a choke brought it
                if self.ev_qcs.contains_key(&(h, r, k)) {
                    continue;
                }
                let own = self.cast_inc.get(&(h, r, k)).map(|c| c.0.clone());
                if own.is_none() && !self.acc.votes_in_round.contains(&(h, r, k)) {
                    continue;
                }
                let mut per: HashMap<Hash, Vec<Address>> = HashMap::new();
                if let Some(m) = self.acc.votes.get(&(h, r, k)) {
                    for (a, s) in m {
                        let clear = self.ev_votes.get(&(h, r, k)).and_then(|e| e.get(a)).map(|e| e.len() == 1).unwrap_or(false);
                        if s.len() == 1 && clear && a != &self.me {
                            per.entry(s.iter().next().unwrap().clone()).or_default().push(a.clone());
                        }
                    }
                }
                if let Some(x) = own {
                    per.entry(x).or_default().push(self.me.clone());
                }
                for (x, who) in per {
                    let w = self.chain.weight_of(h, &who);
                    if self.chain.quorum(h, w) {
                        let d = format!("leader holds {} votes of kind {} for {} in round {}, weight {} of {}, no certificate", who.len(), k, hx(&x), r, w, self.chain.total(h));
                        self.bad(t, "O4-certificate", d);
                    }
                }
            }
        }
        // timers
        if self.exact && !self.cfg_unsure && !self.was_busy && self.busy == Busy::No {
            if let Some(d) = self.deadline() {
                if t > d {
                    let m = format!("step {} of round {} timed out at {} ms, nothing happened until {} ms", self.step, r, d, t);
                    self.bad(t, "O9-late", m);
                }
            }
        }
    }
}

pub fn msg_pos(m: &Msg) -> Option<(u64, u64)> {
    Some(match m {
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round),
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round),
        OverlordMsg::SignedChoke(c) => (c.choke.height, c.choke.round),
        _ => return None,
    })
}

fn kind(k: u8) -> &'static str {
    match k {
        1 => "prevote",
        2 => "precommit",
        _ => "proposal",
    }
}

/// A vote, from the bytes that were hashed for signing.
fn parse_vote(b: &[u8]) -> Option<(u64, u64, u8, Hash)> {
    let r = rlp::Rlp::new(b);
    if r.item_count().ok()? != 4 {
        return None;
    }
    Some((r.val_at(0).ok()?, r.val_at(1).ok()?, r.val_at(2).ok()?, bytes::Bytes::from(r.val_at::<Vec<u8>>(3).ok()?)))
}
