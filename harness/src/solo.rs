//! The properties that are decided on one real node driven by a generated environment
//! (`puppet.rs`) under the reference monitor (`monitor.rs`): which profiles each one explores,
//! which rules of the monitor judge it, and what makes a case count.
use crate::puppet::*;
use crate::runner::*;
use crate::tape::Tape;

pub const ENV: &str = "cryptography, network, log store and application are the harness' own; keys and hashes are collision-free";
pub const BYZ: &str = "other validators of less than a third of the weight misbehave at will; the rest never equivocate, respect their locks and are otherwise arbitrarily slow, lossy and out of order";
pub const SPACE: &str = "1 to 7 validators, up to 60 stimuli a history, virtual time; not bounded otherwise, not exhaustive";

fn go(t: &mut Tape, tr: bool, profs: &[(u32, Prof)], rules: &[&str], need: &[&str]) -> CaseResult {
    let w: Vec<u32> = profs.iter().map(|p| p.0).collect();
    let p = profs[t.weighted(&w)].1;
    judge(&run(t, p), rules, need, tr)
}

macro_rules! solo {
    ($id:expr, $profs:expr, $rules:expr, $need:expr, $rule:expr) => {
        Property {
            id: $id,
            rule: concat!(
                "A case is one real node in a generated history of proposals, votes, certificates, chokes, statuses, block-check results, failures, crashes and virtual time; every event at its interfaces is judged by the reference monitor. Non-trivial: ",
                $rule
            ),
            case: |t, tr| go(t, tr, $profs, $rules, $need),
            quick: 120_000,
            thorough: 12_000_000,
            assumptions: &[ENV, BYZ, SPACE],
        }
    };
}

pub fn all() -> Vec<Property> {
    vec![
        solo!("C02", &[(4, BASE), (3, CRASHES), (2, EPOCHS), (2, EARLY), (2, MIXED)],
            &["M6-height", "M6-proof", "M6-content"], &["commits"],
            "the node commits at least one block (its proof, hash and content are verified)."),
        solo!("C03", &[(2, BASE), (5, CRASHES), (2, DELAYS), (1, WALFAIL), (2, MIXED)],
            &["M1-*"], &["votes_sent|own_certificates", "restarted|rounds_entered"],
            "the node releases a vote, and restarts or changes rounds at least once."),
        solo!("C04", &[(3, BASE), (3, EARLY), (2, APPFAIL), (2, DELAYS), (2, MIXED)],
            &["M4-*"], &["nonnil_precommit"],
            "the node precommits at least one block."),
        solo!("C05", &[(4, BASE), (4, CRASHES), (2, EARLY), (2, MIXED)],
            &["M3-lock"], &["locked_actions"],
            "the node prevotes or proposes while it is locked."),
        solo!("C06", &[(5, CRASHES), (3, WALFAIL), (2, MIXED)],
            &["M2-*", "M15-*", "O10-*"], &["restarted|failed_log_writes"],
            "the node restarts from its log, or a log write fails."),
        solo!("C07", &[(4, BASE), (2, EARLY), (2, EPOCHS), (1, DELAYS), (1, CRASHES), (1, MIXED)],
            &["M5-*", "O4-certificate"], &["own_certificates"],
            "the node aggregates at least one certificate from votes it collected."),
        solo!("C09", &[(4, BASE), (3, CRASHES), (2, EARLY), (1, DELAYS), (2, WALFAIL), (2, MIXED)],
            &["M8-*", "M9-*", "O6-*", "O7-*"], &["rounds_entered|own_chokes"],
            "the node enters a round above zero or sends a choke."),
        solo!("C10", &[(3, BASE), (2, CRASHES), (2, EARLY), (2, APPFAIL), (2, DELAYS), (2, EPOCHS), (2, MIXED)],
            &["M7-*", "O8-*"], &["own_proposals"],
            "the node makes at least one proposal."),
        solo!("C14", &[(4, BASE), (2, CRASHES), (4, EPOCHS), (1, APPFAIL)],
            &["O9-*"], &["propose_timeouts|prevote_timeouts|own_chokes"],
            "at least one propose or prevote timeout or choke whose moment is judged to the millisecond."),
        solo!("C15", &[(4, BASE), (3, EARLY), (2, CRASHES), (1, EPOCHS), (1, APPFAIL), (2, MIXED)],
            &["M11-*", "O1-*", "O2-*", "O3-*", "O5-*", "O6-*", "O7-*", "O9-late"], &["votes_sent|certificates_accepted|chokes_counted"],
            "the node votes, accepts a certificate or counts chokes (each due action is then checked at quiescence)."),
        solo!("C17", &[(5, EPOCHS), (3, LEAVERS), (1, MIXED)],
            &["M12-*", "M4-*", "M5-*", "M6-proof", "M7-not-leader", "M8-*", "M9-no-certificate", "M11-*", "O1-*", "O2-*", "O3-*", "O4-*", "O5-*", "O6-*", "O8-*"],
            &["list_changes"],
            "the node works under at least two different validator lists."),
        solo!("C18", &[(3, BASE), (2, EPOCHS), (2, DELAYS), (1, CRASHES), (1, APPFAIL), (1, EARLY), (2, MIXED)],
            &["M13-*", "M14-*", "O11-*", "M6-twice"], &["heights_entered"],
            "the node enters at least one height after its start."),
        solo!("C19", &[(6, EARLY), (1, MIXED)],
            &["M4-*", "M5-*", "O1-*", "O2-*", "O3-*", "O4-*", "O5-*"], &["early_messages"],
            "at least one valid message for a later round or height arrives early and the node gets to that position."),
        solo!("C21", &[(4, BASE), (2, EARLY), (2, CRASHES), (2, APPFAIL), (1, DELAYS), (2, MIXED)],
            &["M10-*"], &["view_changes"],
            "the node leaves at least one round for a later one of the same height."),
    ]
}
