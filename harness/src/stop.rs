//! C20: a stop request, at whatever moment, ends the run, and nothing is done afterwards.
use crate::det;
use crate::monitor::*;
use crate::puppet::*;
use crate::robust;
use crate::runner::*;
use crate::tape::Tape;
use crate::world::*;
use overlord::types::*;

struct End {
    stopped_at: u64,
    busy: Busy,
    /// Length of the log when the request was made, and times when it must be over.
    due: u64,
    returned: Option<(usize, u64)>,
    /// The handler takes no more messages.
    refuses: bool,
    resumed: Option<Result<u64, String>>,
    late: u64,
    at: &'static str,
}

fn returned(u: &Pup) -> Option<(usize, u64)> {
    lock(&u.w).slots[0].log.iter().enumerate().rev().find(|(_, (_, e))| matches!(e, Ev::Returned)).map(|(i, (t, _))| (i, *t))
}

async fn history(mut t: Tape) -> (Pup, End) {
    let early = t.chance(1, 10);
    let mut u = if early {
        // before the first status
        let mut u = Pup::new(t, MIXED);
        let init = if u.t.chance(1, 2) { 0 } else { 1 };
        u.act(Act::Restart(init));
        if u.t.chance(1, 2) {
            u.settle().await;
        }
        u
    } else {
        let mut u = begin(t, MIXED).await;
        let n = u.t.draw(40);
        for _ in 0..n {
            u.op().await;
        }
        u
    };
    u.act(Act::Fail(10, 0));
    u.act(Act::Fail(0, 0));
    if !u.mon.alive {
        let init = lock(&u.w).slots[0].app_height + 1;
        u.act(Act::Restart(init));
        u.act(Act::Deliver(OverlordMsg::RichStatus(u.chain.status(init))));
        if u.t.chance(2, 3) {
            u.settle().await;
        }
    }
    if !early && u.t.chance(1, 3) {
        // in the middle of a call to the application
        let i = robust::max_interval(&u) as u32;
        for k in [5, 6, 7] {
            let d = 1 + u.t.draw(i);
            u.act(Act::Fail(k, d));
        }
        for _ in 0..10 {
            if u.mon.busy != Busy::No || !u.mon.alive {
                break;
            }
            u.round(0).await;
        }
        if !u.mon.alive {
            let init = lock(&u.w).slots[0].app_height + 1;
            u.act(Act::Restart(init));
        }
        let d = u.t.draw(4) as u64;
        u.sleep(d).await;
    }
    // Messages right before it, and right after it.
    let some = |u: &mut Pup, n: u32| {
        for _ in 0..n {
            let (h, r) = (u.mon.model_h.max(1), u.mon.r);
            let m = match u.t.draw(5) {
                0 => u.proposal(h, r).map(OverlordMsg::SignedProposal),
                1 => u.qc(h, r, 1).map(OverlordMsg::AggregatedVote),
                2 => u.qc(h, r, 2).map(OverlordMsg::AggregatedVote),
                3 => u.chokes(h, r, 1).pop(),
                _ => Some(OverlordMsg::RichStatus(u.chain.status(h + 1))),
            };
            if let Some(m) = m {
                u.act(Act::Deliver(m));
            }
        }
    };
    if u.t.chance(1, 2) {
        u.settle().await;
    }
    let before = u.t.draw(4);
    some(&mut u, before);
    let stopped_at = det::now_ms();
    let busy = u.mon.busy;
    let at = if u.mon.outsider {
        "outsider"
    } else if !u.mon.pos_known {
        "before_the_first_status"
    } else {
        match busy {
            Busy::No => ["propose", "prevote", "precommit", "brake", "commit"][u.mon.step.min(4) as usize],
            Busy::GetBlock => "get_block",
            Busy::Commit => "commit_call",
            Busy::Pacing => "pacing",
        }
    };
    u.act(Act::Deliver(OverlordMsg::Stop));
    let after = u.t.draw(4);
    some(&mut u, after);
    if u.t.chance(1, 3) {
        u.act(Act::Deliver(OverlordMsg::Stop));
    }
    // A call to the application that is under way may end first.
    let i = robust::max_interval(&u);
    u.sleep(1).await;
    let mut k = 0;
    while u.mon.busy != Busy::No && k < 8 * i && returned(&u).is_none() {
        u.sleep(1).await;
        k += 1;
    }
    u.sleep(2).await;
    let due = det::now_ms();
    let r = returned(&u);
    // Long enough for every timer.
    for _ in 0..6 {
        some(&mut u, 1);
        let d = i * (1 + u.t.draw(6) as u64);
        u.sleep(d).await;
    }
    let refuses = !deliver(&u.w, 0, OverlordMsg::Stop);
    let late = lock(&u.w).slots[0].log.len() as u64;
    let resumed = if r.is_some() && !early && u.t.chance(1, 3) { Some(robust::follow(&mut u, false).await) } else { None };
    (u, End { stopped_at, busy, due, returned: r, refuses, resumed, late, at })
}

pub fn case(t: &mut Tape, trace: bool) -> CaseResult {
    let tape = std::mem::replace(t, Tape::fixed(vec![], 0));
    let (mut u, e) = block_on(history(tape));
    *t = std::mem::replace(&mut u.t, Tape::fixed(vec![], 0));
    let mut r = judge(&u, &[], &[], trace);
    r.tag(&format!("stopped_at_{}", e.at), 1);
    for p in panics() {
        if !p.contains(" at src/") {
            r.fail("panic", p);
        }
    }
    match e.returned {
        None => r.fail("no-return", format!("stopped at {} ms ({:?}), still running at {} ms", e.stopped_at, e.busy, e.due)),
        Some((at, t)) => {
            r.nontrivial = true;
            if !e.refuses {
                r.fail("handler", "the run has returned, and its handler still takes messages".into());
            }
            let g = lock(&u.w);
            for (t2, x) in &g.slots[0].log[at + 1..e.late as usize] {
                let same = *t2 == t;
                let what = match x {
                    Ev::In(_) | Ev::CheckDone { .. } | Ev::Note(_) => None,
                    // handed to the application before, by a task of its own
                    Ev::CheckStart { .. } if same => None,
                    o => Some(ev_s(o)),
                };
                if let Some(s) = what {
                    r.fail("after-stop", format!("returned at {} ms, and at {} ms: {}", t, t2, s));
                }
            }
        }
    }
    match e.resumed {
        Some(Ok(k)) if k > 0 => r.tag("resumed_from_its_log", 1),
        Some(Err(d)) => r.fail("resume", d),
        _ => {}
    }
    r
}
