mod attack;
mod cluster;
mod codec;
mod det;
mod diff;
mod directed;
mod leader;
mod monitor;
mod puppet;
mod robust;
mod runner;
mod solo;
mod stop;
mod tape;
mod world;

use runner::*;

fn props() -> Vec<Property> {
    let mut v = vec![
        Property { id: "ALL", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::BASE), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-CRASHES", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::CRASHES), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-WALFAIL", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::WALFAIL), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-APPFAIL", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::APPFAIL), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-DELAYS", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::DELAYS), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-EPOCHS", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::EPOCHS), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-LEAVERS", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::LEAVERS), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-EARLY", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::EARLY), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ALL-MIXED", rule: "", case: |t, tr| puppet::judge(&puppet::run(t, puppet::MIXED), &["*"], &["commits"], tr), quick: 800, thorough: 20000, assumptions: &[] },
        Property { id: "ATTACK", rule: "", case: attack::case, quick: 800, thorough: 20000, assumptions: &[] },
        Property {
            id: "C01",
            rule: "A case is one of two kinds. Cluster: 1 to 7 validators, real nodes and Byzantine agents holding less than a third of the weight that equivocate, withhold, forge and replay; generated delays, losses, duplicates, partitions, crashes with restart from the log, and failing log writes and calls; judged: all commits of a height, over nodes and incarnations, carry one hash and one content. Attack: 3 to 7 validators under a scheduler that owns the network and the Byzantine keys, builds every certificate the seen signatures allow, shows it to some nodes, late or never, crashes nodes between steps and presses for another block once one may be committed in hiding; judged: besides the commits, no two blocks of a height ever have votes enough for a commit certificate. Non-trivial: at least two commits and a round change, a crash or a Byzantine validator; or a block that may be committed and at least two attacked rounds.",
            case: |t, tr| if t.chance(1, 2) { attack::case(t, tr) } else { cluster::case_agreement(t, tr) },
            quick: 40_000,
            thorough: 4_000_000,
            assumptions: &[solo::ENV, "Byzantine validators hold less than a third of the vote weight (and in a cluster leave more than two thirds of the validators by number)"],
        },
        Property {
            id: "C08",
            rule: "A case is a generated history of one node and 1 to 8 messages inserted into it: invalid ones for its height (votes, proposals, certificates, chokes with wrong signatures, senders, weights, bitmaps, locks or justification), copies of delivered ones, ones of earlier rounds and heights, old statuses. The history is run with and without them and everything the node does is compared to the millisecond. Histories whose runs without insertion differ among themselves are dropped. Non-trivial: at least one message was inserted and the node voted.",
            case: diff::case,
            quick: 40_000,
            thorough: 6_000_000,
            assumptions: &[solo::ENV, solo::SPACE, "inserted messages are for the current or earlier heights (forged messages of later heights: see the known finding)"],
        },
        Property {
            id: "C12",
            rule: "A case is one value of a wire, log or serde type with a one-field variant of it and up to 5 mutations of its encoding (tree and byte level) decoded as all 17 types; or a serde type with mutated JSON; or random bytes; or the log and signatures of a node in a generated history. Non-trivial: a value and a distinct variant went through their encodings, a mutated encoding was accepted, or a serde or log value was read back.",
            case: codec::case,
            quick: 300_000,
            thorough: 15_000_000,
            assumptions: &["the block type of the application encodes canonically and its decoder does not panic", "a status interval of 0 and the default ratios count as absent, as on the wire"],
        },
        Property {
            id: if leader::RANDOM { "C11R" } else { "C11" },
            rule: "A case is one of: a random validator list (1 to 200 nodes, any order and weights) asked for leaders of random and extreme heights and rounds (member, order-free, deterministic, fair) and for the voters of random bitmaps; a node taken to an extreme height and up to 4 rounds, whose proposals and votes are compared with the public function; a generated history of a node, whose proposals and votes are compared likewise. Non-trivial: more than one validator, and in a history a vote or proposal was sent.",
            case: leader::case,
            quick: 80_000,
            thorough: 12_000_000,
            assumptions: &[solo::ENV, "the list is not empty and the sum of the propose weights is positive"],
        },
        Property {
            id: "C13",
            rule: "A case is one real node in a generated history with every kind of failure (log, application, network, signing, crashes), in most cases with messages arbitrary in every field thrown in; then all failures end and the other validators propose and vote as one. Judged: no panic, no spinning, the run does not end, and the node follows to the next commit (at its own height, or after arbitrary messages at one beyond any height mentioned). Non-trivial: the node followed to a commit and before that met arbitrary messages, failures, restarts or round changes.",
            case: robust::case,
            quick: 60_000,
            thorough: 6_000_000,
            assumptions: &[solo::ENV, solo::SPACE, "quorum-signed rounds and application statuses stay far below u64::MAX"],
        },
        Property {
            id: "C16",
            rule: "A case is a cluster as for C01 (no failing log writes; in half of the cases the validator list changes with the height; in one of sixteen little but chokes gets through for up to 2100 block intervals, so that many rounds pass) whose faults cease at a generated moment; from then on honest messages arrive within a twentieth of the block interval. Judged: every honest node gets to three more heights and makes at least two commits of its own within a bound of about 32 times the timeouts of a round for each validator. Non-trivial: at least two commits, and a round change, a crash or a Byzantine validator.",
            case: cluster::case_liveness,
            quick: 24_000,
            thorough: 4_000_000,
            assumptions: &[solo::ENV, "honest validators are more than two thirds by weight and by number", "an application behind by more than two intervals is told the latest status"],
        },
        Property {
            id: "C20",
            rule: "A case is one real node in a generated history that gets a stop request at a generated moment (in any step, before the first status, outside the list, in the queue among other messages, while a call to the application or the pacing after a commit is under way). Judged: the run returns (after the call under way, if any), nothing is sent, saved, signed or asked of the application afterwards although messages and time go on, no panic and no spinning; in a third of the cases the node is started again on the same log and has to follow to a commit. Non-trivial: the run returned.",
            case: stop::case,
            quick: 60_000,
            thorough: 6_000_000,
            assumptions: &[solo::ENV, solo::SPACE, "no crash and no failing log write at the moment of the request"],
        },
    ];
    v.extend(solo::all());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {}", id));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&a[2]);
            let o = RunOpts {
                seed,
                tier: tier.clone(),
                cases: get("--cases").and_then(|s| s.parse().ok()),
                evidence: get("--evidence"),
                replay_dir: get("--replays").unwrap_or("/verif/replays".into()),
                known: directed::known(p.shown()),
                deadline_s: get("--deadline").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 7200 } else { 420 }),
            };
            run_property(p, &o, &directed::of(p.shown()))
        }
        Some("one") => run_one(find(&a[2]), seed, a[3].parse().unwrap()),
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let r: Replay = serde_json::from_str(&s).expect("replay file");
            match r.rule.strip_prefix("directed:") {
                Some(name) => {
                    let d = directed::of(find(&r.property).shown());
                    let x = d.iter().find(|x| x.0 == name).expect("no such directed history");
                    replay_directed(x.0, x.1)
                }
                None => replay(find(&r.property), &r),
            }
        }
        _ => {
            eprintln!("usage: ovharness check ID [--cases N] [--evidence PATH] [--replays DIR] | one ID INDEX | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
