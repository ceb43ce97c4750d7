//! Concurrent transactions (S04).

use std::{
    cell::Cell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU32, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use plotline::{
    deref::With,
    graph::{Graph, Source},
    id::Identify,
    schema::{
        ops::{
            delete::{AfterDelete, Delete},
            save::{AfterSave, Save},
        },
        transaction::{Context, Ctx, Target, Transaction},
        Error, Result, Schema,
    },
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure,
    runner::{Fail, Obs, Prop, Tier, R},
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ending {
    Commit,
    Fail,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum TOp {
    Read(u8),
    /// Writes a value that depends on everything the job has read so far.
    Write(u8),
    Remove(u8),
    Nested(Vec<TOp>, bool),
    /// Writes this many identifiers in a row, from this one on.
    Many(u8, u8),
    /// Gives the other threads a chance to get in between.
    Pause,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Job {
    Tx(Vec<TOp>, Ending),
    /// A transaction made some time before it is run.
    Early(Vec<TOp>, Ending),
    /// A transaction used through a context of its own and never run.
    Abandoned(Vec<TOp>),
    /// Through the write guard of the schema.
    Write(Vec<TOp>),
    /// Through the read guard of the schema; writes are ignored.
    Snapshot(Vec<TOp>),
    Save(u8),
    Delete(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub init: Vec<(u8, u64)>,
    pub threads: Vec<Vec<Job>>,
    /// How far into a commit threads pause again (they always do at its start).
    #[serde(default)]
    pub late: u16,
    /// Save and delete operations are recorded in a node by hooks.
    #[serde(default)]
    pub audited: bool,
}

/// The node hooks record operations in.
const AUDIT: u8 = 2;

#[derive(Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Node {
    id: Key,
    val: u64,
}

/// An identifier at whose comparisons a commit can pause.
#[derive(Clone, Copy, Debug, Default, Hash)]
struct Key(u8);

impl PartialEq for Key {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other).is_eq()
    }
}

impl Eq for Key {}

impl PartialOrd for Key {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Key {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        tick();
        self.0.cmp(&other.0)
    }
}

/// Pauses at the first times an identifier is looked at, and again after this many.
#[derive(Clone, Copy)]
struct Pauses {
    ticks: u32,
    late: u32,
}

const PAUSES: u32 = 4;

thread_local! {
    /// Whether looking at an identifier may pause on this thread.
    static ID_PAUSES: Cell<Option<Pauses>> = const { Cell::new(None) };
}

fn tick() {
    ID_PAUSES.with(|p| {
        let Some(mut pauses) = p.get() else {
            return;
        };
        let now = pauses.ticks;
        pauses.ticks += 1;
        p.set(Some(pauses));
        if now < PAUSES || (pauses.late..pauses.late + PAUSES).contains(&now) {
            MEETING.pause();
        }
    });
}

fn arm(late: u16) {
    ID_PAUSES.with(|p| {
        p.set(Some(Pauses {
            ticks: 0,
            late: u32::from(late),
        }))
    });
}

static MEETING: Meeting = Meeting {
    threads: AtomicU32::new(0),
    arrived: AtomicU64::new(0),
};

/// Where threads wait, shortly, for another one to come by.
struct Meeting {
    threads: AtomicU32,
    arrived: AtomicU64,
}

impl Meeting {
    fn pause(&self) {
        if self.threads.load(Ordering::Relaxed) < 2 {
            return;
        }
        let mine = self.arrived.fetch_add(1, Ordering::SeqCst);
        let deadline = Instant::now() + Duration::from_micros(120);
        // Another arrival means that somebody else is running: let it go on for a bit.
        while Instant::now() < deadline {
            if self.arrived.load(Ordering::SeqCst) > mine + 1 {
                break;
            }
            std::thread::yield_now();
        }
    }
}

impl Clone for Node {
    fn clone(&self) -> Self {
        Node {
            id: self.id,
            val: self.val,
        }
    }
}

impl Identify for Node {
    type Id = Key;

    fn id(&self) -> &Key {
        tick();
        &self.id
    }
}

fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15))
        .rotate_left(23)
        .wrapping_mul(0xD6E8_FEB8_6659_FD93)
}

/// What a job works on.
trait View {
    fn get(&self, id: u8) -> Option<u64>;
    fn put(&mut self, id: u8, val: u64);
    fn remove(&mut self, id: u8);
    fn nested(&mut self, ops: &[TOp], ok: bool, log: &mut Log);
    fn pause(&self) {}
}

/// Everything a job has observed.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Log {
    acc: u64,
    seen: Vec<(u8, Option<u64>)>,
}

impl Log {
    fn new(job: u64) -> Self {
        Log {
            acc: mix(0xA5A5, job + 1),
            seen: Vec::new(),
        }
    }

    fn read(&mut self, id: u8, val: Option<u64>) {
        self.seen.push((id, val));
        self.acc = mix(self.acc, val.map_or(u64::from(id), |v| v ^ 1));
    }

    fn next(&mut self) -> u64 {
        self.acc = mix(self.acc, 3);
        self.acc
    }
}

fn perform(ops: &[TOp], view: &mut dyn View, log: &mut Log) {
    for op in ops {
        match op {
            TOp::Read(id) => log.read(*id, view.get(*id)),
            TOp::Write(id) => {
                let val = log.next();
                view.put(*id, val);
            }
            TOp::Remove(id) => view.remove(*id),
            TOp::Nested(ops, ok) => view.nested(ops, *ok, log),
            TOp::Many(from, n) => {
                for id in (0..*n).map(|i| from.wrapping_add(i)) {
                    let val = log.next();
                    view.put(id, val);
                }
            }
            TOp::Pause => view.pause(),
        }
    }
}

struct CtxView<'a>(&'a Context<'a, Node>);

impl View for CtxView<'_> {
    fn get(&self, id: u8) -> Option<u64> {
        self.0.get(&Key(id)).map(|n| n.val)
    }

    fn put(&mut self, id: u8, val: u64) {
        self.0.save(Node { id: Key(id), val });
    }

    fn remove(&mut self, id: u8) {
        self.0.delete(Key(id));
    }

    fn nested(&mut self, ops: &[TOp], ok: bool, log: &mut Log) {
        let _ = self.0.transaction().with(|ctx| {
            perform(ops, &mut CtxView(&ctx), log);
            if ok {
                Ok(())
            } else {
                Err(Error::custom("nested"))
            }
        });
    }

    fn pause(&self) {
        MEETING.pause();
    }
}

struct GraphView<'a>(&'a mut Graph<Node>);

impl View for GraphView<'_> {
    fn get(&self, id: u8) -> Option<u64> {
        self.0.get(&Key(id)).map(|n| n.val)
    }

    fn put(&mut self, id: u8, val: u64) {
        self.0.insert(Node { id: Key(id), val });
    }

    fn remove(&mut self, id: u8) {
        self.0.remove(&Key(id));
    }

    fn nested(&mut self, _: &[TOp], _: bool, _: &mut Log) {}

    fn pause(&self) {
        MEETING.pause();
    }
}

struct SnapshotView<'a>(&'a Graph<Node>);

impl View for SnapshotView<'_> {
    fn get(&self, id: u8) -> Option<u64> {
        self.0.get(&Key(id)).map(|n| n.val)
    }

    fn put(&mut self, _: u8, _: u64) {}

    fn remove(&mut self, _: u8) {}

    fn nested(&mut self, _: &[TOp], _: bool, _: &mut Log) {}

    fn pause(&self) {
        MEETING.pause();
    }
}

type State = BTreeMap<u8, u64>;

struct ModelView {
    state: State,
    writes: bool,
    nests: bool,
}

impl View for ModelView {
    fn get(&self, id: u8) -> Option<u64> {
        self.state.get(&id).copied()
    }

    fn put(&mut self, id: u8, val: u64) {
        if self.writes {
            self.state.insert(id, val);
        }
    }

    fn remove(&mut self, id: u8) {
        if self.writes {
            self.state.remove(&id);
        }
    }

    fn nested(&mut self, ops: &[TOp], ok: bool, log: &mut Log) {
        if !self.nests {
            return;
        }
        let before = self.state.clone();
        perform(ops, self, log);
        if !ok {
            self.state = before;
        }
    }
}

/// How a job ended.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ended {
    Ok,
    Noop,
    Failed,
    Panicked,
}

fn ended(r: std::thread::Result<Result<()>>) -> Ended {
    match r {
        Ok(Ok(())) => Ended::Ok,
        Ok(Err(Error::Noop)) => Ended::Noop,
        Ok(Err(Error::Msg(_))) => Ended::Failed,
        Err(_) => Ended::Panicked,
    }
}

/// A job as it went: when it started and ended, what it saw and how it ended.
#[derive(Debug)]
struct Done {
    start: u64,
    end: u64,
    log: Log,
    ended: Ended,
    all: Option<State>,
}

struct Share<'a>(&'a Schema<Node>);

// SAFETY: the schemas shared here have no resources and no triggers but functions without state,
// which are the only parts that are not `Sync`, and `Node` is `Send` and `Sync`.
unsafe impl Sync for Share<'_> {}
unsafe impl Send for Share<'_> {}

impl Share<'_> {
    fn schema(&self) -> &Schema<Node> {
        self.0
    }
}

fn content(graph: &Graph<Node>) -> State {
    graph.into_iter().map(|n| (n.id.0, n.val)).collect()
}

/// Records the target of an operation, in a transaction of its own.
fn audit(ctx: Ctx<'_, Node>, target: Target<Node>) -> Result<()> {
    ctx.transaction().with(|ctx| {
        let before = CtxView(&ctx).get(AUDIT);
        MEETING.pause();
        let val = target.with(|n: &Node| record(before, n)).expect("target");
        CtxView(&ctx).put(AUDIT, val);
        Ok(())
    })
}

fn record(before: Option<u64>, target: &Node) -> u64 {
    mix(mix(before.unwrap_or(1), u64::from(target.id.0)), target.val)
}

fn run_job(schema: &Schema<Node>, n: u64, late: u16, job: &Job) -> (Log, Ended, Option<State>) {
    let mut log = Log::new(n);
    let mut all = None;
    let r = catch_unwind(AssertUnwindSafe(|| match job {
        Job::Tx(ops, ending) => schema.transaction().with(|ctx| {
            perform(ops, &mut CtxView(&ctx), &mut log);
            match ending {
                Ending::Commit => {
                    arm(late);
                    Ok(())
                }
                Ending::Fail => Err(Error::custom("failed")),
                Ending::Panic => std::panic::panic_any(()),
            }
        }),
        Job::Early(ops, ending) => {
            let tx = schema.transaction();
            MEETING.pause();
            tx.with(|ctx| {
                perform(ops, &mut CtxView(&ctx), &mut log);
                match ending {
                    Ending::Commit => {
                        arm(late);
                        Ok(())
                    }
                    Ending::Fail => Err(Error::custom("failed")),
                    Ending::Panic => std::panic::panic_any(()),
                }
            })
        }
        Job::Abandoned(ops) => {
            let tx = schema.transaction();
            MEETING.pause();
            let ctx = Context::from(&tx);
            perform(ops, &mut CtxView(&ctx), &mut log);
            Ok(())
        }
        Job::Write(ops) => {
            let mut guard = schema.write();
            perform(ops, &mut GraphView(&mut guard), &mut log);
            Ok(())
        }
        Job::Snapshot(ops) => {
            let guard = schema.read();
            perform(ops, &mut SnapshotView(&guard), &mut log);
            all = Some(content(&guard));
            Ok(())
        }
        Job::Save(id) => {
            let val = log.next();
            arm(late);
            Save::new(Node { id: Key(*id), val }).execute(schema.transaction())
        }
        Job::Delete(id) => {
            arm(late);
            Delete::<Node>::new(Key(*id)).execute(schema.transaction())
        }
    }));
    ID_PAUSES.with(|p| p.set(None));
    (log, ended(r), all)
}

/// The effect of a job on a state, if what it saw and how it ended fit that state.
fn replay(job: &Job, n: u64, done: &Done, state: &State, audited: bool) -> Option<State> {
    let mut log = Log::new(n);
    let recorded = |after: &mut State, id: u8, val: u64| {
        if audited {
            let target = Node { id: Key(id), val };
            let entry = record(after.get(&AUDIT).copied(), &target);
            after.insert(AUDIT, entry);
        }
    };
    let (after, how) = match job {
        Job::Abandoned(ops) => {
            let mut view = ModelView {
                state: state.clone(),
                writes: true,
                nests: true,
            };
            perform(ops, &mut view, &mut log);
            (state.clone(), Ended::Ok)
        }
        Job::Tx(ops, ending) | Job::Early(ops, ending) => {
            let mut view = ModelView {
                state: state.clone(),
                writes: true,
                nests: true,
            };
            perform(ops, &mut view, &mut log);
            match ending {
                Ending::Commit => (view.state, Ended::Ok),
                Ending::Fail => (state.clone(), Ended::Failed),
                Ending::Panic => (state.clone(), Ended::Panicked),
            }
        }
        Job::Write(ops) | Job::Snapshot(ops) => {
            let mut view = ModelView {
                state: state.clone(),
                writes: matches!(job, Job::Write(_)),
                nests: false,
            };
            perform(ops, &mut view, &mut log);
            (view.state, Ended::Ok)
        }
        Job::Save(id) => {
            let mut after = state.clone();
            let val = log.next();
            after.insert(*id, val);
            recorded(&mut after, *id, val);
            (after, Ended::Ok)
        }
        Job::Delete(id) => {
            let mut after = state.clone();
            match after.remove(id) {
                Some(val) => {
                    recorded(&mut after, *id, val);
                    (after, Ended::Ok)
                }
                None => (after, Ended::Noop),
            }
        }
    };
    let fits = log == done.log
        && how == done.ended
        && done.all.as_ref().is_none_or(|all| all == state);
    fits.then_some(after)
}

/// Looks for a serial order of all jobs that explains everything observed.
fn serialisable(jobs: &[(u64, &Job, &Done)], init: State, want: &State, audited: bool) -> bool {
    fn search(
        jobs: &[(u64, &Job, &Done)],
        taken: u64,
        state: State,
        want: &State,
        audited: bool,
        seen: &mut HashSet<(u64, Vec<(u8, u64)>)>,
    ) -> bool {
        if taken == (1u64 << jobs.len()) - 1 {
            return state == *want;
        }
        if !seen.insert((taken, state.iter().map(|(k, v)| (*k, *v)).collect())) {
            return false;
        }
        for (i, (n, job, done)) in jobs.iter().enumerate() {
            if taken & (1 << i) != 0 {
                continue;
            }
            // Nothing left may have ended before this one started.
            let too_early = jobs
                .iter()
                .enumerate()
                .any(|(k, (_, _, d))| taken & (1 << k) == 0 && k != i && d.end < done.start);
            if too_early {
                continue;
            }
            if let Some(after) = replay(job, *n, done, &state, audited) {
                if search(jobs, taken | (1 << i), after, want, audited, seen) {
                    return true;
                }
            }
        }
        false
    }
    search(jobs, 0, init, want, audited, &mut HashSet::new())
}

fn touches(job: &Job) -> (Vec<u8>, Vec<u8>) {
    fn ops(v: &[TOp], reads: &mut Vec<u8>, writes: &mut Vec<u8>) {
        for op in v {
            match op {
                TOp::Read(id) => reads.push(*id),
                TOp::Write(id) | TOp::Remove(id) => writes.push(*id),
                TOp::Nested(v, ok) => {
                    let mut w = Vec::new();
                    ops(v, reads, &mut w);
                    if *ok {
                        writes.extend(w);
                    }
                }
                TOp::Many(from, n) => writes.extend((0..*n).map(|i| from.wrapping_add(i))),
                TOp::Pause => {}
            }
        }
    }
    let (mut reads, mut writes) = (Vec::new(), Vec::new());
    match job {
        Job::Tx(v, _) | Job::Abandoned(v) | Job::Early(v, _) => {
            ops(v, &mut reads, &mut writes);
            if !matches!(job, Job::Tx(_, Ending::Commit) | Job::Early(_, Ending::Commit)) {
                writes.clear();
            }
        }
        Job::Write(v) => ops(v, &mut reads, &mut writes),
        Job::Snapshot(v) => {
            ops(v, &mut reads, &mut writes);
            writes.clear();
            reads.extend(0..=u8::MAX);
        }
        Job::Save(id) => writes.push(*id),
        Job::Delete(id) => {
            reads.push(*id);
            writes.push(*id);
        }
    }
    (reads, writes)
}

pub struct S04;

impl Prop for S04 {
    type Case = Case;

    const ID: &'static str = "S04";
    const WITHIN: f64 = 0.0;
    const RULE: &'static str = "two to four threads (now and then up to ten) with up to four jobs each on one schema: read-modify-write transactions (nested parts, failing and panicking ends), some made long before they are run or never run, direct writes, saves and deletes (now and then with hooks that record them) and snapshots, with pauses inside bodies and inside commits at which threads wait for each other; decided by searching a serial order, compatible with real time, that explains every value seen, every result and the final graph; non-trivial: two jobs of different threads overlapping in time, one writing what the other reads or writes";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a schema without resources, and without triggers that have state, may be shared between threads (the type itself is not Sync; the harness asserts it)",
        "thread interleavings are sampled by the operating system's scheduler plus generated pauses, not enumerated",
    ];

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let top = |nest: bool| {
            let id = 0u8..4;
            let leaf = prop_oneof![
                4 => id.clone().prop_map(TOp::Read),
                4 => id.clone().prop_map(TOp::Write),
                1 => id.prop_map(TOp::Remove),
                3 => Just(TOp::Pause),
            ]
            .boxed();
            if nest {
                prop_oneof![
                    6 => leaf.clone(),
                    1 => (vec(leaf, 0..4), prop::bool::weighted(0.7)).prop_map(|(v, ok)| TOp::Nested(v, ok)),
                ]
                .boxed()
            } else {
                leaf
            }
        };
        let ending = prop_oneof![
            7 => Just(Ending::Commit),
            2 => Just(Ending::Fail),
            1 => Just(Ending::Panic),
        ];
        // Increments of one or two counters, with a pause between reading and writing.
        let counter = (0u8..3, 0u8..3, ending.clone()).prop_map(|(a, b, end)| {
            Job::Tx(
                vec![
                    TOp::Read(a),
                    TOp::Read(b),
                    TOp::Pause,
                    TOp::Write(a),
                    TOp::Write(b),
                ],
                end,
            )
        });
        let job = prop_oneof![
            5 => counter,
            4 => (vec(top(true), 0..6), ending.clone()).prop_map(|(v, e)| Job::Tx(v, e)),
            2 => (vec(top(true), 0..6), ending.clone()).prop_map(|(v, e)| Job::Early(v, e)),
            1 => vec(top(true), 0..5).prop_map(Job::Abandoned),
            2 => vec(top(false), 0..5).prop_map(Job::Write),
            3 => vec(top(false), 0..4).prop_map(Job::Snapshot),
            1 => (0u8..4).prop_map(Job::Save),
            1 => (0u8..4).prop_map(Job::Delete),
        ];
        // Long commits, with a counter at either end of them.
        let wide = prop_oneof![
            4 => (0u8..3, 8u8..40, 1u8..200, 0u8..3, any::<bool>(), ending).prop_map(|(a, from, n, b, pause, end)| {
                let mut ops = vec![TOp::Read(a), TOp::Read(b), TOp::Write(a), TOp::Many(from, n), TOp::Write(b)];
                if pause {
                    ops.insert(2, TOp::Pause);
                }
                Job::Tx(ops, end)
            }),
            2 => (8u8..40, 1u8..200).prop_map(|(from, n)| Job::Write(vec![TOp::Many(from, n), TOp::Pause])),
            3 => (vec(0u8..250, 0..3), vec(0u8..3, 0..2)).prop_map(|(some, few)| {
                let mut ops: Vec<TOp> = few.into_iter().map(TOp::Read).collect();
                ops.push(TOp::Pause);
                ops.extend(some.into_iter().map(TOp::Read));
                Job::Snapshot(ops)
            }),
            2 => job.clone(),
        ];
        let threads = tier.pick(4, 5);
        let init = vec((0u8..4, 0u64..9), 0..4);
        let shape = prop_oneof![
            24 => (init.clone(), vec(vec(job.clone(), 1..=4), 2..=threads), 0u16..60),
            1 => (init.clone(), vec(vec(job, 1..=2), 5..=10), 0u16..60),
            4 => (init, vec(vec(wide, 1..=3), 2..=4), 0u16..1500),
        ];
        (shape, prop::bool::weighted(0.3))
            .prop_map(|((init, threads, late), audited)| Case {
                init,
                threads,
                late,
                audited,
            })
            .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(80_000, 1_500_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let init: State = case.init.iter().copied().collect();
        let schema = Schema::from(Graph::from_iter(
            init.iter().map(|(id, val)| Node { id: Key(*id), val: *val }),
        ));
        let schema = match case.audited {
            true => schema.with_trigger(AfterSave, audit).with_trigger(AfterDelete, audit),
            false => schema,
        };
        let share = Share(&schema);
        let clock = AtomicU64::new(0);
        let done: Mutex<Vec<(usize, usize, Done)>> = Mutex::new(Vec::new());
        let ready = AtomicU32::new(0);
        let n = case.threads.len() as u32;

        // A thread that panics, or a program that blocks, must not leave the meeting armed.
        MEETING.threads.store(n, Ordering::Relaxed);
        let scope = catch_unwind(AssertUnwindSafe(|| {
            std::thread::scope(|s| {
                for (t, jobs) in case.threads.iter().enumerate() {
                    let (share, clock, done, ready) = (&share, &clock, &done, &ready);
                    s.spawn(move || {
                        ready.fetch_add(1, Ordering::SeqCst);
                        while ready.load(Ordering::SeqCst) < n {
                            std::thread::yield_now();
                        }
                        for (j, job) in jobs.iter().enumerate() {
                            let number = (t * 16 + j) as u64;
                            let start = clock.fetch_add(1, Ordering::SeqCst);
                            let (log, ended, all) = run_job(share.schema(), number, case.late, job);
                            let end = clock.fetch_add(1, Ordering::SeqCst);
                            done.lock().unwrap().push((
                                t,
                                j,
                                Done {
                                    start,
                                    end,
                                    log,
                                    ended,
                                    all,
                                },
                            ));
                        }
                    });
                }
            })
        }));
        MEETING.threads.store(0, Ordering::Relaxed);
        if scope.is_err() {
            return Err(Fail::from("a thread panicked outside of its jobs"));
        }

        let done = done.into_inner().unwrap();
        let jobs: Vec<(u64, &Job, &Done)> = done
            .iter()
            .map(|(t, j, d)| ((t * 16 + j) as u64, &case.threads[*t][*j], d))
            .collect();
        let last = content(&schema.read());

        let mut contended = false;
        for (a, (ta, _, da)) in done.iter().enumerate() {
            for (b, (tb, _, db)) in done.iter().enumerate() {
                if ta != tb && da.start < db.end && db.start < da.end {
                    let (reads, writes) = touches(jobs[a].1);
                    let (_, others) = touches(jobs[b].1);
                    contended |= others.iter().any(|id| reads.contains(id) || writes.contains(id));
                }
            }
        }
        obs.nontrivial(contended);
        obs.label_if(contended, "contended");
        obs.label_if(
            done.iter().any(|(_, _, d)| d.ended == Ended::Panicked),
            "panicking transactions",
        );
        obs.label_if(
            done.iter().any(|(_, _, d)| d.all.is_some()) && contended,
            "snapshots under contention",
        );

        ensure!(
            serialisable(&jobs, init, &last, case.audited),
            "no serial order explains the outcome: {} ; final graph {last:?}",
            jobs.iter()
                .map(|(n, j, d)| format!("[{n}: {j:?} => {:?} saw {:?}, {}..{}]", d.ended, d.log.seen, d.start, d.end))
                .collect::<Vec<_>>()
                .join(" ")
        );
        Ok(())
    }
}
