//! Hand-made histories: known findings (listed in known_findings.txt), and repaired defects that
//! generation meets too rarely.
use crate::world::*;
use overlord::types::*;

pub type Directed = (&'static str, fn() -> Option<String>);

pub fn of(id: &str) -> Vec<Directed> {
    match id {
        "C08" | "C19" => vec![
            ("forged-early-proposal", forged_early_proposal),
            ("forged-early-vote", forged_early_vote),
            ("forged-early-certificate", forged_early_certificate),
        ],
        _ => vec![],
    }
}

/// Names of the histories of this property that known_findings.txt lists.
pub fn known(id: &str) -> Vec<String> {
    let s = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.split_whitespace().next() == Some(&format!("property={}", id)))
        .filter_map(|l| l.split_whitespace().find_map(|x| x.strip_prefix("history=")).map(|x| x.to_string()))
        .collect()
}

/// Validators of these weights, the first is the node; it starts at height 1, which it does not
/// lead, and leads height 2 or not.
fn setup(weights: &[u32], lead: bool) -> (W, Chain, Vec<Address>) {
    let n = weights.len();
    for seed in 0u8.. {
        let addrs: Vec<Address> = (0..n).map(|i| hash_bytes(&[seed, i as u8]).slice(0..20)).collect();
        let list = (0..n).map(|i| (i, 1, weights[i])).collect();
        let chain = Chain { addrs: addrs.clone(), epochs: vec![Epoch { from: 0, list, interval: 1000, config: None, say: 0 }], ..Default::default() };
        if chain.leader(1, 0) == addrs[0] || (chain.leader(2, 0) == addrs[0]) != lead {
            continue;
        }
        let w = new_world(chain.clone(), crate::tape::Tape::fixed(vec![], 0));
        add_slot(&w, addrs[0].clone());
        return (w, chain, addrs);
    }
    unreachable!()
}

async fn begin(w: &W, c: &Chain) {
    start(w, 0, 0);
    deliver(w, 0, OverlordMsg::RichStatus(c.status(1)));
    sleep_ms(5).await;
}
async fn next_height(w: &W, c: &Chain) {
    sleep_ms(5).await;
    lock(w).slots[0].app_height = 1;
    deliver(w, 0, OverlordMsg::RichStatus(c.status(2)));
    sleep_ms(5).await;
}
fn sent(w: &W, f: impl Fn(&Msg) -> bool) -> bool {
    lock(w).slots[0].log.iter().any(|(_, e)| matches!(e, Ev::Out { msg, .. } if f(msg)))
}

fn forged_early_proposal() -> Option<String> {
    // without the forged message the genuine one must do
    match early_proposal(false) {
        None => early_proposal(true),
        Some(_) => None,
    }
}

fn early_proposal(forge: bool) -> Option<String> {
    let (w, c, a) = setup(&[1, 1, 1, 1], false);
    block_on(async {
        begin(&w, &c).await;
        let l = c.leader(2, 0);
        let b = Blk { height: 2, nonce: 1, proposer: 9, quality: Q_VALID, delay: 0 };
        let mut forged = mk_proposal(&l, 2, 0, &Blk { nonce: 2, ..b.clone() }, &Blk { nonce: 2, ..b.clone() }.hash(), None);
        forged.signature = sign_as(&a[0], &hash_bytes(b"forged"));
        if forge {
            deliver(&w, 0, OverlordMsg::SignedProposal(forged));
        }
        sleep_ms(5).await;
        deliver(&w, 0, OverlordMsg::SignedProposal(mk_proposal(&l, 2, 0, &b, &b.hash(), None)));
        next_height(&w, &c).await;
        let x = b.hash();
        if sent(&w, |m| matches!(m, OverlordMsg::SignedVote(v) if v.vote.height == 2 && v.vote.block_hash == x)) {
            None
        } else {
            Some("a forged proposal of the next height displaces the genuine one that arrives early".into())
        }
    })
}

fn forged_early_vote() -> Option<String> {
    // without the forged message the genuine one must do
    match early_vote(false) {
        None => early_vote(true),
        Some(_) => None,
    }
}

fn early_vote(forge: bool) -> Option<String> {
    let (w, c, a) = setup(&[1, 5, 1], true);
    block_on(async {
        begin(&w, &c).await;
        let mut forged = mk_vote(&a[1], 2, 0, VoteType::Prevote, &nil());
        forged.signature = sign_as(&a[0], &hash_bytes(b"forged"));
        if forge {
            deliver(&w, 0, OverlordMsg::SignedVote(forged));
        }
        sleep_ms(5).await;
        for i in [1, 2] {
            deliver(&w, 0, OverlordMsg::SignedVote(mk_vote(&a[i], 2, 0, VoteType::Prevote, &nil())));
        }
        next_height(&w, &c).await;
        if sent(&w, |m| matches!(m, OverlordMsg::AggregatedVote(q) if q.height == 2 && q.block_hash.is_empty())) {
            None
        } else {
            Some("a forged vote of the next height displaces the genuine one of that voter that arrives early".into())
        }
    })
}

fn forged_early_certificate() -> Option<String> {
    // without the forged message the genuine one must do
    match early_certificate(false) {
        None => early_certificate(true),
        Some(_) => None,
    }
}

fn early_certificate(forge: bool) -> Option<String> {
    let (w, c, a) = setup(&[1, 1, 1, 1], false);
    block_on(async {
        begin(&w, &c).await;
        let l = c.leader(2, 0);
        let q = c.make_qc(2, 0, VoteType::Prevote, &nil(), &a[1..], &l);
        deliver(&w, 0, OverlordMsg::AggregatedVote(q.clone()));
        sleep_ms(5).await;
        let mut forged = q.clone();
        forged.signature.signature = sign_as(&a[0], &hash_bytes(b"forged"));
        if forge {
            deliver(&w, 0, OverlordMsg::AggregatedVote(forged));
        }
        next_height(&w, &c).await;
        if sent(&w, |m| matches!(m, OverlordMsg::SignedVote(v) if v.vote.height == 2 && v.vote.vote_type == VoteType::Precommit)) {
            None
        } else {
            Some("a forged certificate of the next height displaces the genuine one that arrived early".into())
        }
    })
}
