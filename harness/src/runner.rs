//! Supervisor, worker and replay: everything that is common to all properties.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    fs::{self, File},
    io::Write,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Child, Command, ExitStatus, Stdio},
    rc::Rc,
    sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
    time::{Duration, Instant},
};

use proptest::{
    prop_oneof,
    strategy::{BoxedStrategy, Strategy},
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn from_env() -> Self {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }

    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }

    /// Picks the value for this tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What a case turned out to exercise.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: BTreeMap<&'static str, u64>,
    extra_evals: u64,
    extra_nontrivial: u64,
}

impl Obs {
    /// Marks the case as non-trivial by the rule of its property.
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }

    /// Classifies the case.
    pub fn label(&mut self, name: &'static str) {
        *self.labels.entry(name).or_default() += 1;
    }

    pub fn label_if(&mut self, yes: bool, name: &'static str) {
        if yes {
            self.label(name);
        }
    }

    /// Registers further executions made on behalf of the same case (e.g. one per panic point).
    pub fn extra(&mut self, evals: u64, nontrivial: u64) {
        self.extra_evals += evals;
        self.extra_nontrivial += nontrivial;
    }
}

/// A violation of a property, with an optional exact signature to match known findings.
#[derive(Debug)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}

impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail {
            sig: None,
            msg: msg.to_owned(),
        }
    }
}

pub type R = std::result::Result<(), Fail>;

/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::runner::Fail::from(format!($($arg)*)));
        }
    };
}

/// Fails the case unless both values are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $($arg:tt)*) => {{
        let (got, want) = (&$got, &$want);
        if got != want {
            return Err($crate::runner::Fail::from(format!(
                "{}: got {:?}, want {:?}", format!($($arg)*), got, want
            )));
        }
    }};
}

/// A property decided by generated cases.
pub trait Prop: 'static {
    type Case: Debug + Clone + Serialize + DeserializeOwned + 'static;

    const ID: &'static str;
    const LEVEL: &'static str = "exploration";
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Worker waits on child processes of its own, so being blocked does not mean a deadlock.
    const SPAWNS: bool = false;
    /// How many of the cases have another one run within them, if their points are marked by [`meanwhile`].
    const WITHIN: f64 = 0.05;

    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Total number of cases.
    fn budget(tier: Tier) -> u32;
    fn run(case: &Self::Case, obs: &mut Obs) -> R;
    /// Cases executed in addition to the generated ones, in shard order.
    fn fixed() -> Vec<Self::Case> {
        Vec::new()
    }
    /// Single cases, each run in a process of its own, that are known or likely to end it. One that does
    /// is a violation unless its signature is listed as a known finding; one that answers wrongly always is.
    fn fatal() -> Vec<(&'static str, Self::Case)> {
        Vec::new()
    }
}

/// A case and, for some, another one that is run from beginning to end at some point within it: what happens to
/// one schema, graph, document or tree is no business of any other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run<C> {
    case: C,
    #[serde(skip_serializing_if = "Option::is_none")]
    within: Option<(u16, C)>,
    /// At which of its points it gets later all of a sudden, and by how many seconds.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    later: Option<(u16, u32)>,
    /// Whether somebody is interested in everything that is logged.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    listening: bool,
}

impl<C> From<C> for Run<C> {
    fn from(case: C) -> Self {
        Run {
            case,
            within: None,
            later: None,
            listening: false,
        }
    }
}

/// Takes note of everything that is logged, to the last detail, while told to.
struct Listener;

static LISTENING: AtomicBool = AtomicBool::new(false);
static SPANS: AtomicU64 = AtomicU64::new(1);

struct Details(usize);

impl tracing::field::Visit for Details {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn Debug) {
        self.0 += format!("{field}: {value:?}").len();
    }
}

impl tracing::Subscriber for Listener {
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }

    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        LISTENING.load(Ordering::Relaxed)
    }

    fn new_span(&self, span: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        span.record(&mut Details(0));
        tracing::span::Id::from_u64(SPANS.fetch_add(1, Ordering::Relaxed))
    }

    fn record(&self, _: &tracing::span::Id, values: &tracing::span::Record<'_>) {
        values.record(&mut Details(0));
    }

    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}

    fn event(&self, event: &tracing::Event<'_>) {
        let mut details = Details(0);
        event.record(&mut details);
        std::hint::black_box(details.0);
    }

    fn enter(&self, _: &tracing::span::Id) {}

    fn exit(&self, _: &tracing::span::Id) {}
}

/// How far ahead of the real time this process is, in seconds.
static AHEAD: AtomicI64 = AtomicI64::new(0);

/// Stands in for the function of the C library, by which the standard library tells the time.
///
/// # Safety
///
/// As for the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, time: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, time);
    let of_the_day = [
        libc::CLOCK_REALTIME,
        libc::CLOCK_REALTIME_COARSE,
        libc::CLOCK_MONOTONIC,
        libc::CLOCK_MONOTONIC_COARSE,
        libc::CLOCK_MONOTONIC_RAW,
        libc::CLOCK_BOOTTIME,
    ];
    if r == 0 && of_the_day.contains(&clock) {
        (*time).tv_sec += AHEAD.load(Ordering::Relaxed);
    }
    r as libc::c_int
}

thread_local! {
    /// After how many points it gets later, and by how many seconds.
    static LATER: Cell<Option<(u16, u32)>> = const { Cell::new(None) };
    /// What is to be run within the case, and at which of its points.
    static WITHIN: RefCell<Option<(u16, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
}

/// Marks a point of a case at which another one may run, or much time pass.
pub fn meanwhile() {
    match LATER.get() {
        Some((0, seconds)) => {
            LATER.set(None);
            AHEAD.fetch_add(seconds.into(), Ordering::Relaxed);
        }
        Some((n, seconds)) => LATER.set(Some((n - 1, seconds))),
        None => {}
    }
    let due = WITHIN.with(|within| {
        let mut within = within.borrow_mut();
        match within.as_mut() {
            Some((0, _)) => within.take(),
            Some((n, _)) => {
                *n -= 1;
                None
            }
            None => None,
        }
    });
    if let Some((_, run)) = due {
        run();
    }
}

fn runs<P: Prop>(tier: Tier) -> BoxedStrategy<Run<P::Case>> {
    let at = prop_oneof![0u16..3, 0u16..20];
    let within = (at.clone(), P::strategy(tier));
    let later = (at, prop_oneof![1u32..90, 90u32..10_000, 10_000u32..40_000_000]);
    let listening = proptest::bool::weighted(0.05);
    if P::WITHIN == 0.0 {
        return (P::strategy(tier), listening)
            .prop_map(|(case, listening)| Run {
                listening,
                ..Run::from(case)
            })
            .boxed();
    }
    let within = proptest::option::weighted(P::WITHIN, within);
    let later = proptest::option::weighted(P::WITHIN, later);
    (P::strategy(tier), within, later, listening)
        .prop_map(|(case, within, later, listening)| Run {
            case,
            within,
            later,
            listening,
        })
        .boxed()
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    /// Whether the time ended before the budget.
    #[serde(default)]
    out_of_time: bool,
    evaluations: u64,
    nontrivial_extra: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    failure: Option<Failure>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    case: Value,
    message: String,
    original: Option<Value>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    case: Value,
    original: Option<Value>,
    campaign: Campaign,
}

#[derive(Serialize, Deserialize, Clone)]
struct Campaign {
    seed: u64,
    tier: String,
    shard: u32,
    shards: u32,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn rng(id: &str, seed: u64, shard: u32) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..12].copy_from_slice(&shard.to_le_bytes());
    bytes[12..20].copy_from_slice(&fnv(id.as_bytes()).to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn payload_text(payload: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = payload.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-textual panic".to_owned()
    }
}

/// Runs a case, turning an escaped panic of the code under test into a failure.
fn run_caught<P: Prop>(run: &Run<P::Case>, obs: &mut Obs) -> R {
    fn caught<P: Prop>(case: &P::Case, obs: &mut Obs) -> R {
        match catch_unwind(AssertUnwindSafe(|| P::run(case, obs))) {
            Ok(r) => r,
            Err(payload) => Err(Fail::from(format!("panicked: {}", payload_text(&*payload)))),
        }
    }

    let inner = Rc::new(RefCell::new(None::<R>));
    let within = run.within.clone().map(|(at, case)| {
        let inner = inner.clone();
        let run: Box<dyn FnOnce()> = Box::new(move || {
            let r = caught::<P>(&case, &mut Obs::default());
            *inner.borrow_mut() = Some(r);
        });
        (at, run)
    });
    WITHIN.with(|w| *w.borrow_mut() = within);
    LATER.set(run.later);
    static LISTENER: std::sync::Once = std::sync::Once::new();
    LISTENER.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Listener);
    });
    LISTENING.store(run.listening, Ordering::Relaxed);
    let outer = caught::<P>(&run.case, obs);
    WITHIN.with(|w| *w.borrow_mut() = None);
    LATER.set(None);
    LISTENING.store(false, Ordering::Relaxed);
    obs.label_if(run.listening, "everything logged");
    obs.label_if(AHEAD.swap(0, Ordering::Relaxed) > 0, "much time passing meanwhile");

    let inner = inner.take();
    obs.label_if(inner.is_some(), "another case within this one");
    outer?;
    match inner {
        Some(Err(fail)) => Err(Fail {
            msg: format!("within another case: {}", fail.msg),
            ..fail
        }),
        _ => Ok(()),
    }
}

/// Reads JSON, however deep: cases are nested as much as what they describe.
fn parse<T: DeserializeOwned>(text: &[u8]) -> serde_json::Result<T> {
    let mut from = serde_json::Deserializer::from_slice(text);
    from.disable_recursion_limit();
    let value = T::deserialize(&mut from)?;
    from.end()?;
    Ok(value)
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Signatures of the known findings of a property, from the committed file.
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let path = verif_dir().join("known_findings.txt");
    let text = fs::read_to_string(path).unwrap_or_default();
    let prefix = format!("finding: property={id} sig=");
    text.lines()
        .filter_map(|line| line.strip_prefix(&prefix))
        .map(|rest| {
            let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
            (sig.to_owned(), what.to_owned())
        })
        .collect()
}

struct Journal {
    file: File,
    seq: u64,
}

impl Journal {
    fn new(path: &Path) -> Self {
        Journal {
            file: File::create(path).expect("journal"),
            seq: 0,
        }
    }

    fn record(&mut self, case: &[u8]) {
        self.seq += 1;
        let mut buf = Vec::with_capacity(case.len() + 16);
        buf.extend_from_slice(&self.seq.to_le_bytes());
        buf.extend_from_slice(&(case.len() as u64).to_le_bytes());
        buf.extend_from_slice(case);
        self.file.write_all_at(&buf, 0).expect("journal write");
    }

    fn seq(path: &Path) -> u64 {
        let mut b = [0u8; 8];
        match File::open(path).and_then(|f| f.read_exact_at(&mut b, 0)) {
            Ok(()) => u64::from_le_bytes(b),
            Err(_) => 0,
        }
    }

    fn case(path: &Path) -> Option<Value> {
        let buf = fs::read(path).ok()?;
        let len = u64::from_le_bytes(buf.get(8..16)?.try_into().ok()?) as usize;
        parse(buf.get(16..16 + len)?).ok()
    }
}

/// Entry point of a worker process.
pub fn worker<P: Prop>(campaign_json: &str, dir: &Path) -> i32 {
    silence_panics();
    let campaign: Campaign = serde_json::from_str(campaign_json).expect("campaign");
    let tier = if campaign.tier == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };

    let known = known_findings(P::ID);
    let journal = RefCell::new(Journal::new(
        &dir.join(format!("journal.{}", campaign.shard)),
    ));
    let report = RefCell::new(WorkerReport::default());
    let hashes = RefCell::new(HashSet::<u64>::new());
    let samples = RefCell::new(Vec::<Value>::new());
    let first_failure = RefCell::new(None::<Value>);
    let start = Instant::now();
    let limit = std::env::var("VH_LIMIT_S").ok().and_then(|s| s.parse().ok());
    let limit = Duration::from_secs(limit.unwrap_or(tier.pick(300, 4 * 3600)));

    let execute = |case: &Run<P::Case>| -> std::result::Result<(), String> {
        let text = serde_json::to_vec(case).expect("case must serialise");
        journal.borrow_mut().record(&text);

        let mut obs = Obs::default();
        let outcome = run_caught::<P>(case, &mut obs);

        let shrinking = first_failure.borrow().is_some();
        if !shrinking {
            let mut report = report.borrow_mut();
            report.evaluations += 1 + obs.extra_evals;
            report.nontrivial_extra += obs.extra_nontrivial;
            for (label, n) in &obs.labels {
                *report.labels.entry((*label).to_owned()).or_default() += n;
            }

            if obs.nontrivial && hashes.borrow_mut().insert(fnv(&text)) {
                let n = hashes.borrow().len();
                if text.len() < 3000 && (n == 1 || n == 40 || n == 400) {
                    samples
                        .borrow_mut()
                        .push(parse(&text).expect("case json"));
                }
            }
        }

        match outcome {
            Ok(()) => Ok(()),
            Err(fail) => {
                if let Some(sig) = &fail.sig {
                    if known.contains_key(sig) {
                        if !shrinking {
                            *report.borrow_mut().known.entry(sig.clone()).or_default() += 1;
                        }
                        return Ok(());
                    }
                }
                first_failure
                    .borrow_mut()
                    .get_or_insert_with(|| parse(&text).expect("case json"));
                Err(fail.msg)
            }
        }
    };

    let mut failure: Option<(Run<P::Case>, String)> = None;
    for (i, case) in P::fixed().into_iter().enumerate() {
        let case = Run::from(case);
        if i as u32 % campaign.shards == campaign.shard {
            if let Err(msg) = execute(&case) {
                failure = Some((case, msg));
                break;
            }
        }
    }

    if failure.is_none() {
        let total = P::budget(tier);
        let cases = total / campaign.shards
            + u32::from(total % campaign.shards > campaign.shard);
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 50_000,
            max_shrink_time: 60_000,
            max_global_rejects: 0,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(config, rng(P::ID, campaign.seed, campaign.shard));
        let result = runner.run(&runs::<P>(tier), |case| {
            // A machine too slow for the whole budget gets through part of it.
            if first_failure.borrow().is_none() && start.elapsed() > limit {
                report.borrow_mut().out_of_time = true;
                return Err(TestCaseError::reject("out of time"));
            }
            execute(&case).map_err(TestCaseError::fail)
        });

        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                failure = Some((case, reason.message().to_owned()));
            }
            Err(TestError::Abort(_)) if report.borrow().out_of_time => {}
            Err(TestError::Abort(reason)) => {
                eprintln!("proptest aborted: {reason}");
                return 3;
            }
        }
    }

    let mut report = report.into_inner();
    let hashes: Vec<u8> = hashes.into_inner().into_iter().flat_map(u64::to_le_bytes).collect();
    fs::write(dir.join(format!("hashes.{}", campaign.shard)), hashes).expect("hashes");
    report.samples = samples.into_inner();
    report.failure = failure.map(|(case, message)| Failure {
        case: serde_json::to_value(&case).expect("case json"),
        message,
        original: first_failure.into_inner(),
    });

    let tmp = dir.join(format!("report.{}.tmp", campaign.shard));
    fs::write(&tmp, serde_json::to_vec(&report).expect("report json")).expect("report");
    fs::rename(&tmp, dir.join(format!("report.{}", campaign.shard))).expect("report");
    0
}

/// Runs the single case of the given file in this process: 0 if it passes, 1 if it fails.
pub fn run_case<P: Prop>(path: &Path) -> i32 {
    silence_panics();
    let value: Value = match fs::read(path).ok().and_then(|b| parse(&b).ok()) {
        Some(value) => value,
        None => return 4,
    };
    let Ok(case) = serde_json::from_value::<Run<P::Case>>(value) else {
        return 4;
    };
    match run_caught::<P>(&case, &mut Obs::default()) {
        Ok(()) => 0,
        Err(fail) => {
            println!("{}", fail.msg);
            1
        }
    }
}

/// How a supervised process ended.
enum Ended {
    Exit(ExitStatus),
    /// Blocked for good: every thread asleep with no progress at all.
    Deadlock,
    /// Burnt far more processor time on one case than any case takes.
    Runaway,
}

/// Processor ticks used by a process so far, threads that ended included, and whether all of its
/// threads are asleep.
pub fn proc_sample(pid: u32) -> Option<(u64, bool)> {
    fn stat(path: &Path) -> Option<(bool, u64)> {
        let stat = fs::read_to_string(path).ok()?;
        let rest = &stat[stat.rfind(')')? + 2..];
        let fields: Vec<&str> = rest.split(' ').collect();
        let ticks = fields.get(11)?.parse::<u64>().ok()? + fields.get(12)?.parse::<u64>().ok()?;
        Some((fields.first() == Some(&"S"), ticks))
    }
    let mut asleep = true;
    for entry in fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        asleep &= stat(&entry.ok()?.path().join("stat"))?.0;
    }
    let (_, ticks) = stat(Path::new(&format!("/proc/{pid}/stat")))?;
    Some((ticks, asleep))
}

const BLOCKED_FOR: Duration = Duration::from_secs(15);
const CPU_LIMIT_TICKS: u64 = 60 * 100;

/// Tells a process that can make no more progress from a slow one.
pub struct Watch {
    since: Instant,
    ticks: u64,
    base: u64,
    mark: u64,
    last: Instant,
}

pub enum Verdict {
    Fine,
    Deadlock,
    Runaway,
}

impl Watch {
    pub fn new() -> Self {
        let now = Instant::now();
        Watch {
            since: now,
            ticks: 0,
            base: 0,
            mark: u64::MAX,
            last: now,
        }
    }

    /// `mark` changes whenever the process is known to have progressed.
    pub fn check(&mut self, pid: u32, mark: impl FnOnce() -> u64, blocking_is_fatal: bool) -> Verdict {
        if self.last.elapsed() < Duration::from_millis(250) {
            return Verdict::Fine;
        }
        self.last = Instant::now();

        let Some((ticks, asleep)) = proc_sample(pid) else {
            return Verdict::Fine;
        };
        let mark = mark();
        if mark != self.mark {
            self.mark = mark;
            self.base = ticks;
            self.ticks = ticks;
            self.since = Instant::now();
            return Verdict::Fine;
        }
        if ticks.saturating_sub(self.base) > CPU_LIMIT_TICKS {
            return Verdict::Runaway;
        }
        if !asleep || ticks != self.ticks || !blocking_is_fatal {
            self.ticks = ticks;
            self.since = Instant::now();
            return Verdict::Fine;
        }
        if self.since.elapsed() > BLOCKED_FOR {
            return Verdict::Deadlock;
        }
        Verdict::Fine
    }
}

fn limit_memory(cmd: &mut Command) {
    use std::os::unix::process::CommandExt;
    // SAFETY: only async-signal-safe calls between fork and exec.
    unsafe {
        cmd.pre_exec(|| {
            let lim = libc::rlimit {
                rlim_cur: 3 << 30,
                rlim_max: 3 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

fn supervise_one(mut child: Child, journal: Option<&Path>, spawns: bool) -> Ended {
    let mut watch = Watch::new();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return Ended::Exit(status);
        }
        let mark = || journal.map(Journal::seq).unwrap_or(0);
        match watch.check(child.id(), mark, !spawns) {
            Verdict::Fine => {}
            v => {
                let _ = child.kill();
                let _ = child.wait();
                return match v {
                    Verdict::Deadlock => Ended::Deadlock,
                    _ => Ended::Runaway,
                };
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

const DIED: &str = "process died on signal";

fn describe(ended: &Ended) -> Option<String> {
    match ended {
        Ended::Exit(s) if s.signal().is_some() => {
            let sig = s.signal().unwrap();
            match sig {
                libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP => None,
                _ => Some(format!("{DIED} {sig} (abort or stack overflow)")),
            }
        }
        Ended::Exit(_) => None,
        Ended::Deadlock => Some("deadlock: blocked for good with no thread able to proceed".into()),
        Ended::Runaway => Some("does not complete: unbounded computation on one small case".into()),
    }
}

/// Runs one case in a fresh process; `Some` describes the failure.
fn try_case(exe: &Path, id: &str, case: &Value, dir: &Path, spawns: bool) -> Option<String> {
    let path = dir.join("try.json");
    fs::write(&path, serde_json::to_vec(case).unwrap()).expect("case file");
    let mut cmd = Command::new(exe);
    cmd.arg("case")
        .arg(id)
        .arg(&path)
        .env("VH_SCRATCH", dir)
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    limit_memory(&mut cmd);
    let mut child = cmd.spawn().expect("spawn");
    let out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = String::new();
        let mut out = out;
        let _ = out.read_to_string(&mut s);
        s
    });
    let ended = supervise_one(child, None, spawns);
    let text = reader.join().unwrap_or_default();
    match &ended {
        Ended::Exit(s) if s.code() == Some(1) => Some(text.trim().to_owned()),
        other => describe(other),
    }
}

/// All the values obtained by removing one element of an array or simplifying one number.
fn reductions(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Array(items) => {
            let n = items.len();
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                while i + chunk <= n {
                    let mut w = items.clone();
                    w.drain(i..i + chunk);
                    out.push(Value::Array(w));
                    i += chunk;
                }
                chunk /= 2;
            }
            for (i, item) in items.iter().enumerate() {
                for r in reductions(item) {
                    let mut w = items.clone();
                    w[i] = r;
                    out.push(Value::Array(w));
                }
            }
        }
        Value::Object(map) => {
            for (k, item) in map {
                for r in reductions(item) {
                    let mut w = map.clone();
                    w.insert(k.clone(), r);
                    out.push(Value::Object(w));
                }
            }
        }
        Value::Number(n) => {
            if let Some(n) = n.as_i64() {
                if n != 0 {
                    out.push(json!(0));
                }
                if n.abs() > 1 {
                    out.push(json!(n / 2));
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        _ => {}
    }
    out
}

/// Greedy reduction of a case that kills or blocks the process running it.
fn reduce(exe: &Path, id: &str, case: Value, msg: String, dir: &Path, spawns: bool, slow: bool) -> (Value, String) {
    let deadline = Instant::now() + Duration::from_secs(if slow { 90 } else { 60 });
    let (mut best, mut why) = (case, msg);
    let mut tries = 0;
    'outer: loop {
        for candidate in reductions(&best) {
            if Instant::now() > deadline || tries > if slow { 4 } else { 3000 } {
                break 'outer;
            }
            tries += 1;
            if let Some(msg) = try_case(exe, id, &candidate, dir, spawns) {
                best = candidate;
                why = msg;
                continue 'outer;
            }
        }
        break;
    }
    (best, why)
}

struct Scratch(PathBuf);

impl Scratch {
    /// A new directory with no ignore file or repository above it.
    fn new(name: &str) -> Self {
        let usable = |base: &Path| {
            base.ancestors().all(|dir| {
                [".git", ".ignore", ".gitignore"]
                    .iter()
                    .all(|name| fs::symlink_metadata(dir.join(name)).is_err())
            })
        };
        let bases = [
            PathBuf::from("/dev/shm"),
            std::env::temp_dir(),
            PathBuf::from("/var/tmp"),
            verif_dir().join("out"),
        ];
        for base in bases.iter().filter(|base| usable(base)).chain(&bases) {
            let path = base.join(name);
            if fs::create_dir_all(&path).is_ok() {
                return Scratch(path);
            }
        }
        panic!("no place for scratch files");
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn shards() -> u32 {
    8
}

fn spawn_worker(exe: &Path, id: &str, campaign: &Campaign, dir: &Path) -> Child {
    let mut cmd = Command::new(exe);
    cmd.arg("worker")
        .arg(id)
        .arg(serde_json::to_string(campaign).unwrap())
        .arg(dir)
        .env("VH_SCRATCH", dir)
        .stdout(Stdio::null())
        .stderr(Stdio::inherit());
    limit_memory(&mut cmd);
    cmd.spawn().expect("spawn worker")
}

/// Runs the check of a property and returns the exit code of the process.
pub fn check<P: Prop>() -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = Tier::from_env();
    let exe = std::env::current_exe().expect("current exe");
    let verif = verif_dir();
    let scratch = Scratch::new(&format!("vharness-{}-{}", P::ID, std::process::id()));
    let dir = scratch.0.clone();

    let shards = shards();
    let mut running: Vec<(Campaign, Child, Watch)> = (0..shards)
        .map(|shard| {
            let campaign = Campaign {
                seed,
                tier: tier.name().to_owned(),
                shard,
                shards,
            };
            let child = spawn_worker(&exe, P::ID, &campaign, &dir);
            (campaign, child, Watch::new())
        })
        .collect();

    let mut total = WorkerReport::default();
    let mut hashes = HashSet::<u64>::new();
    let mut failures: Vec<(Campaign, Failure, Option<Ended>)> = Vec::new();
    let mut error = None;

    while !running.is_empty() {
        let mut i = 0;
        while i < running.len() {
            let (campaign, child, watch) = &mut running[i];
            let journal = dir.join(format!("journal.{}", campaign.shard));
            let ended = match child.try_wait().expect("wait") {
                Some(status) => Some(Ended::Exit(status)),
                None => match watch.check(child.id(), || Journal::seq(&journal), !P::SPAWNS) {
                    Verdict::Fine => None,
                    v => {
                        let _ = child.kill();
                        let _ = child.wait();
                        Some(match v {
                            Verdict::Deadlock => Ended::Deadlock,
                            _ => Ended::Runaway,
                        })
                    }
                },
            };

            let Some(ended) = ended else {
                i += 1;
                continue;
            };

            let (campaign, _, _) = running.swap_remove(i);
            match &ended {
                Ended::Exit(s) if s.success() => {
                    let report: Option<WorkerReport> =
                        fs::read(dir.join(format!("report.{}", campaign.shard)))
                            .ok()
                            .and_then(|b| parse(&b).ok());
                    let Some(report) = report else {
                        error = Some("a worker left no report".to_owned());
                        continue;
                    };
                    total.evaluations += report.evaluations;
                    total.out_of_time |= report.out_of_time;
                    total.nontrivial_extra += report.nontrivial_extra;
                    for (k, v) in report.labels {
                        *total.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in report.known {
                        *total.known.entry(k).or_default() += v;
                    }
                    total.samples.extend(report.samples);
                    let path = dir.join(format!("hashes.{}", campaign.shard));
                    let bytes = fs::read(&path).expect("hashes");
                    let _ = fs::remove_file(&path);
                    hashes.extend(bytes.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
                    if let Some(failure) = report.failure {
                        failures.push((campaign, failure, None));
                    }
                }
                other => match (describe(other), Journal::case(&journal)) {
                    (Some(message), Some(case)) => {
                        total.evaluations += Journal::seq(&journal);
                        failures.push((
                            campaign,
                            Failure {
                                case,
                                message,
                                original: None,
                            },
                            Some(ended),
                        ));
                    }
                    _ => error = Some(format!("a worker ended without an answer: {}", match other {
                        Ended::Exit(s) => s.to_string(),
                        _ => "killed".into(),
                    })),
                },
            }

            // One failure is enough: the rest of the campaign adds nothing.
            if !failures.is_empty() {
                for (_, child, _) in &mut running {
                    let _ = child.kill();
                    let _ = child.wait();
                }
                running.clear();
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }

    let known = known_findings(P::ID);
    if failures.is_empty() && error.is_none() {
        for (sig, case) in P::fatal() {
            let case = serde_json::to_value(Run::from(case)).expect("case json");
            total.evaluations += 1;
            let Some(message) = try_case(&exe, P::ID, &case, &dir, P::SPAWNS) else {
                continue;
            };
            if message.starts_with(DIED) && known.contains_key(sig) {
                *total.known.entry(sig.to_owned()).or_default() += 1;
                continue;
            }
            let campaign = Campaign {
                seed,
                tier: tier.name().to_owned(),
                shard: 0,
                shards,
            };
            let failure = Failure {
                case,
                message,
                original: None,
            };
            failures.push((campaign, failure, None));
        }
    }

    let mut code = 0;
    let mut violation = None;
    if let Some((campaign, failure, ended)) = failures.into_iter().next() {
        let (case, message) = match &ended {
            Some(ended) => {
                let slow = !matches!(ended, Ended::Exit(_));
                reduce(&exe, P::ID, failure.case.clone(), failure.message.clone(), &dir, P::SPAWNS, slow)
            }
            None => (failure.case.clone(), failure.message.clone()),
        };
        let original = failure.original.or(Some(failure.case));
        let replay = Replay {
            property: P::ID.to_owned(),
            message: message.clone(),
            case,
            original,
            campaign,
        };
        let out = verif.join("out");
        let _ = fs::create_dir_all(&out);
        let path = out.join(format!("{}-seed{}-{}.replay.json", P::ID, seed, tier.name()));
        fs::write(&path, serde_json::to_vec_pretty(&replay).unwrap()).expect("replay file");
        println!("{}: {}", P::ID, message);
        println!("minimal case: {}", replay.case);
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        violation = Some(message);
        code = 1;
    } else if let Some(error) = error {
        eprintln!("{}: no answer: {error}", P::ID);
        return 2;
    }

    for (sig, n) in &total.known {
        let what = known.get(sig).map(String::as_str).unwrap_or("");
        println!("KNOWN-FINDING: property={} sig={sig} {what} ({n} cases)", P::ID);
    }

    let distinct = hashes.len() as u64 + total.nontrivial_extra;
    let mut samples = total.samples;
    samples.truncate(12);
    let wall = start.elapsed().as_secs_f64();
    let evidence = json!({
        "property": P::ID,
        "tier": tier.name(),
        "seed": seed,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": distinct,
            "rule": P::RULE,
            "samples": samples,
            "labels": total.labels,
            "shards": shards,
            "out_of_time": total.out_of_time,
            "excluded_known_findings": total.known,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": wall,
        "violations": u32::from(violation.is_some()),
    });
    let evidence_dir = verif.join("evidence");
    let _ = fs::create_dir_all(&evidence_dir);
    let mut f = File::create(evidence_dir.join(format!("{}.json", P::ID))).expect("evidence");
    f.write_all(&serde_json::to_vec_pretty(&evidence).unwrap())
        .expect("evidence");

    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s ({})",
        P::ID,
        total.evaluations,
        distinct,
        wall,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

/// Re-runs a replay file: first its minimal case alone, then the campaign that found it.
pub fn replay<P: Prop>(path: &Path) -> i32 {
    let replay: Replay = parse(&fs::read(path).expect("replay file"))
        .expect("replay json");
    let exe = std::env::current_exe().expect("current exe");
    let scratch = Scratch::new(&format!("vharness-replay-{}", std::process::id()));

    for case in [Some(replay.case), replay.original].into_iter().flatten() {
        for _ in 0..5 {
            if let Some(msg) = try_case(&exe, P::ID, &case, &scratch.0, P::SPAWNS) {
                println!("{}: {msg}", P::ID);
                println!("VIOLATION property={} replay={}", P::ID, path.display());
                return 1;
            }
        }
    }

    let child = spawn_worker(&exe, P::ID, &replay.campaign, &scratch.0);
    let journal = scratch.0.join(format!("journal.{}", replay.campaign.shard));
    let ended = supervise_one(child, Some(&journal), P::SPAWNS);
    let report: Option<WorkerReport> =
        fs::read(scratch.0.join(format!("report.{}", replay.campaign.shard)))
            .ok()
            .and_then(|b| parse(&b).ok());
    let msg = describe(&ended).or(report.and_then(|r| r.failure).map(|f| f.message));
    match msg {
        Some(msg) => {
            println!("{}: {msg}", P::ID);
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            1
        }
        None => {
            println!("{}: no longer fails", P::ID);
            0
        }
    }
}

pub fn read_replay_property(path: &Path) -> String {
    let replay: Replay = parse(&fs::read(path).expect("replay file"))
        .expect("replay json");
    replay.property
}
