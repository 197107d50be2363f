//! C06: timers and delayed notifications, on a virtual clock against a discrete-event model.
use coerce::actor::context::ActorContext;
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::timer::{Timer, TimerTick};
use coerce::actor::scheduler::ActorType;
use coerce::actor::system::ActorSystem;
use coerce::actor::Actor;
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::Instant;
use vf::rt::within_for;
use vf::*;

/// All periods, delays and handling times are multiples of U; every driver action happens at its
/// own residue modulo U, so no two causally unrelated events ever share an instant.
const U: u64 = 64;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum How {
    Stop,
    Drop,
    Keep,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Act {
    StartTimer { period: u8, work: u8, immediately: bool, ends_after: u8, how: How },
    Busy { work: u8 },
    Delayed { delay: u8, work: u8, cancel_after: Option<u8>, keep: bool },
    StopActor,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    acts: Vec<(u8, Act)>,
    horizon: u16,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Kind {
    Tick(usize),
    Busy(usize),
    Delayed(usize),
}
type Log = Arc<Mutex<Vec<(Kind, u64, u64)>>>;

struct Subject {
    log: Log,
    t0: Instant,
}
impl Actor for Subject {}
#[derive(Clone)]
struct Job(Kind, u64);
impl Message for Job {
    type Result = ();
}
impl TimerTick for Job {}
#[async_trait]
impl Handler<Job> for Subject {
    async fn handle(&mut self, m: Job, _: &mut ActorContext) {
        let s = self.t0.elapsed().as_millis() as u64;
        if m.1 > 0 {
            tokio::time::sleep(Duration::from_millis(m.1)).await;
        }
        let e = self.t0.elapsed().as_millis() as u64;
        self.log.lock().push((m.0, s, e));
    }
}

// ------------------------------------------------------------------ model
#[derive(Debug, Clone, Copy)]
enum MEv {
    Fire(usize),
    EndTimer(usize),
    Post(Kind, u64),
    Cancel(usize),
    StopPost,
    Done,
}

fn residue(i: usize, sub: usize) -> u64 {
    // 1..=63, unique per (action, sub-action); actions <= 12, sub in 0..4
    (1 + i * 5 + sub) as u64
}

fn model(case: &Case) -> (Vec<(Kind, u64, u64)>, Option<u64>) {
    // (time, seq, event), sorted on demand: tiny queues
    let mut q: Vec<(u64, u64, MEv)> = vec![];
    let mut seq = 0;
    let mut push = |q: &mut Vec<(u64, u64, MEv)>, t: u64, e: MEv| {
        seq += 1;
        q.push((t, seq, e));
    };
    let horizon = case.horizon as u64 * U;
    struct T {
        period: u64,
        work: u64,
        ended: bool,
    }
    let mut timers: Vec<Option<T>> = vec![];
    let mut cancelled = vec![false; case.acts.len()];
    for (i, (at, a)) in case.acts.iter().enumerate() {
        timers.push(None);
        let t = *at as u64 * U + residue(i, 0);
        match a {
            Act::StartTimer { period, work, immediately, ends_after, how } => {
                let p = *period as u64 * U;
                timers[i] = Some(T { period: p, work: *work as u64 * U, ended: false });
                push(&mut q, if *immediately { t } else { t + p }, MEv::Fire(i));
                if *how != How::Keep {
                    push(&mut q, *at as u64 * U + *ends_after as u64 * U + residue(i, 1), MEv::EndTimer(i));
                }
            }
            Act::Busy { work } => push(&mut q, t, MEv::Post(Kind::Busy(i), *work as u64 * U)),
            Act::Delayed { delay, work, cancel_after, .. } => {
                push(&mut q, t + *delay as u64 * U, MEv::Post(Kind::Delayed(i), *work as u64 * U));
                if let Some(c) = cancel_after {
                    push(&mut q, (*at as u64 + *c as u64) * U + residue(i, 1), MEv::Cancel(i));
                }
            }
            Act::StopActor => push(&mut q, t, MEv::StopPost),
        }
    }
    let mut mailbox: VecDeque<Option<(Kind, u64)>> = VecDeque::new();
    let mut current: Option<(Kind, u64, u64)> = None;
    let mut stopped = None;
    let mut out = vec![];
    loop {
        q.sort_by_key(|x| (x.0, x.1));
        if q.is_empty() {
            break;
        }
        let (t, _, e) = q.remove(0);
        if t > horizon {
            break;
        }
        match e {
            MEv::Fire(i) => {
                let tm = timers[i].as_ref().unwrap();
                if !tm.ended && stopped.is_none() {
                    mailbox.push_back(Some((Kind::Tick(i), tm.work)));
                }
            }
            MEv::EndTimer(i) => timers[i].as_mut().unwrap().ended = true,
            MEv::Post(k, w) => {
                let c = matches!(k, Kind::Delayed(i) if cancelled[i]);
                if !c && stopped.is_none() {
                    mailbox.push_back(Some((k, w)));
                }
            }
            MEv::Cancel(i) => cancelled[i] = true,
            MEv::StopPost => {
                if stopped.is_none() {
                    mailbox.push_back(None);
                }
            }
            MEv::Done => {
                let (k, s, e) = current.take().unwrap();
                out.push((k, s, e));
                if let Kind::Tick(i) = k {
                    push(&mut q, e + timers[i].as_ref().unwrap().period, MEv::Fire(i));
                }
            }
        }
        while current.is_none() && stopped.is_none() {
            match mailbox.pop_front() {
                None => break,
                Some(None) => stopped = Some(t),
                Some(Some((k, w))) => {
                    current = Some((k, t, t + w));
                    if w == 0 {
                        let (k, s, e) = current.take().unwrap();
                        out.push((k, s, e));
                        if let Kind::Tick(i) = k {
                            push(&mut q, e + timers[i].as_ref().unwrap().period, MEv::Fire(i));
                        }
                    } else {
                        push(&mut q, t + w, MEv::Done);
                    }
                }
            }
        }
    }
    (out, stopped)
}

async fn execute(case: &Case) -> CaseResult {
    let sys = ActorSystem::new();
    let log: Log = Default::default();
    let t0 = Instant::now();
    let a = sys
        .new_actor("x", Subject { log: log.clone(), t0 }, ActorType::Anonymous)
        .await
        .map_err(|e| Fail::Safety(format!("{e:?}")))?;
    for (i, (at, act)) in case.acts.iter().enumerate() {
        let (a, act, at) = (a.clone(), *act, *at as u64);
        tokio::spawn(async move {
            tokio::time::sleep_until(t0 + Duration::from_millis(at * U + residue(i, 0))).await;
            match act {
                Act::StartTimer { period, work, immediately, ends_after, how } => {
                    let p = Duration::from_millis(period as u64 * U);
                    let job = Job(Kind::Tick(i), work as u64 * U);
                    let t = if immediately { Timer::start_immediately(a, p, job) } else { Timer::start(a, p, job) };
                    match how {
                        How::Keep => {
                            std::future::pending::<()>().await;
                            drop(t);
                        }
                        h => {
                            tokio::time::sleep_until(t0 + Duration::from_millis((at + ends_after as u64) * U + residue(i, 1))).await;
                            if h == How::Stop {
                                t.stop();
                            } else {
                                drop(t);
                            }
                        }
                    }
                }
                Act::Busy { work } => {
                    let _ = a.notify(Job(Kind::Busy(i), work as u64 * U));
                }
                Act::Delayed { delay, work, cancel_after, keep } => {
                    let h = a.scheduled_notify(Job(Kind::Delayed(i), work as u64 * U), Duration::from_millis(delay as u64 * U));
                    match cancel_after {
                        Some(c) => {
                            tokio::time::sleep_until(t0 + Duration::from_millis((at + c as u64) * U + residue(i, 1))).await;
                            h.cancel();
                        }
                        None => {
                            if keep {
                                std::future::pending::<()>().await;
                            }
                        }
                    }
                }
                Act::StopActor => {
                    let _ = a.notify_stop();
                }
            }
        });
    }
    tokio::time::sleep_until(t0 + Duration::from_millis(case.horizon as u64 * U)).await;
    let got = log.lock().clone();
    let (want, stopped) = model(case);
    let horizon = case.horizon as u64 * U;
    // the timer wheel works in whole milliseconds
    let tol = 2;
    ensure!(
        got.len() == want.len(),
        "{} deliveries happened, {} were due.\n got {:?}\nwant {:?}", got.len(), want.len(), got, want
    );
    for (g, w) in got.iter().zip(&want) {
        ensure!(
            g.0 == w.0 && g.1 >= w.1 && g.1 <= w.1 + tol && g.2 <= w.2 + tol,
            "delivery {:?} at {}..{} ms, due {:?} at {}..{} ms (horizon {})", g.0, g.1, g.2, w.0, w.1, w.2, horizon
        );
    }
    let ticks = want.iter().filter(|w| matches!(w.0, Kind::Tick(_))).count();
    Ok(CaseOut::new(ticks >= 2)
        .label(ticks > 10, "over 10 ticks")
        .label(stopped.is_some(), "actor ended")
        .label(case.acts.iter().any(|a| matches!(a.1, Act::StartTimer { how: How::Drop, .. })), "handle dropped")
        .label(case.acts.iter().any(|a| matches!(a.1, Act::StartTimer { how: How::Stop, .. })), "timer stopped")
        .label(case.acts.iter().any(|a| matches!(a.1, Act::Delayed { cancel_after: Some(_), .. })), "cancelled delay"))
}

fn act() -> impl Strategy<Value = Act> {
    prop_oneof![
        5 => (prop_oneof![7 => 1u8..12, 1 => 12u8..=250], prop_oneof![4 => Just(0u8), 2 => 0u8..20, 1 => 20u8..=200], any::<bool>(), prop_oneof![4 => 0u8..60, 1 => 60u8..=250], prop_oneof![Just(How::Stop), Just(How::Drop), Just(How::Keep)])
            .prop_map(|(period, work, immediately, ends_after, how)| Act::StartTimer { period, work, immediately, ends_after, how }),
        3 => prop_oneof![5 => 0u8..25, 1 => 25u8..=250].prop_map(|work| Act::Busy { work }),
        4 => (prop_oneof![5 => 0u8..30, 1 => 30u8..=250], 0u8..5, prop::option::of(prop_oneof![4 => 0u8..40, 1 => 40u8..=250]), any::<bool>()).prop_map(|(delay, work, cancel_after, keep)| Act::Delayed { delay, work, cancel_after, keep }),
        1 => Just(Act::StopActor),
    ]
}

struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "timers"
    }
    fn rule(&self) -> &'static str {
        "1-10 actions on one actor at generated virtual instants: timers (immediate or not, stopped, dropped or kept), busy work, delayed notifications (cancelled or not), actor stop; every delivery and its time compared with a discrete-event model; non-trivial: at least two ticks due."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        (prop::collection::vec((0u8..60, act()), 1..10), prop_oneof![3 => 60u16..160, 1 => 300u16..1200]).prop_map(|(acts, horizon)| Case { acts, horizon }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 200_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { within_for(Duration::from_secs(3600), "whole case", execute(c)).await })?
    }
}

pub fn run() {
    Runner::from_args("C06").part(Det).finish()
}
