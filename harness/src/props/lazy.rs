//! Lazy documents (D01).

use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use plotline::{
    deref::TryDeref,
    document::{lazy::LazyDocument, DocumentRepository},
    id::Identify,
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{Obs, Prop, Tier, R},
};

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Doc {
    id: u16,
    val: u64,
}

impl Doc {
    /// What the repository has under an identifier: now and then a document that carries another one.
    fn stored(id: u16, val: u64) -> Self {
        let id = if val % 8 == 7 { id + 100 } else { id };
        Self { id, val }
    }
}

impl Identify for Doc {
    type Id = u16;

    fn id(&self) -> &u16 {
        &self.id
    }
}

/// A repository that counts its loads and, while racing, makes them meet.
#[derive(Debug, Default)]
struct State {
    docs: Mutex<BTreeMap<u16, u64>>,
    loads: Mutex<BTreeMap<u16, u64>>,
    /// The next load panics.
    failing: AtomicBool,
    racing: AtomicBool,
    arrivals: AtomicU32,
    expected: AtomicU32,
    /// Every load yields other content, as if the document changed all the time.
    changing: AtomicBool,
    version: AtomicU64,
    /// So many loads to come find nothing.
    absent: AtomicU32,
    clock: AtomicU64,
    race_loads: Mutex<Vec<RaceLoad>>,
}

/// A load during a race.
#[derive(Debug)]
struct RaceLoad {
    /// When the access it belongs to may at the earliest have begun.
    access: u64,
    start: u64,
    end: u64,
    found: bool,
    /// By the access to a clone made of a document with content.
    by_clone: bool,
}

struct Unavailable;

thread_local! {
    static ACCESS_START: Cell<u64> = const { Cell::new(0) };
    static ON_CLONE: Cell<bool> = const { Cell::new(false) };
    /// What the next load of this thread does before it answers.
    static NESTED: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}

impl State {
    fn total(&self) -> u64 {
        self.loads.lock().unwrap().values().sum()
    }

    fn of(&self, id: u16) -> u64 {
        self.loads.lock().unwrap().get(&id).copied().unwrap_or(0)
    }
}

/// The repository as documents have it. The case keeps none of these for itself.
#[derive(Debug)]
struct Repo(Arc<State>);

impl std::ops::Deref for Repo {
    type Target = State;

    fn deref(&self) -> &State {
        &self.0
    }
}

impl DocumentRepository for Repo {
    type Document = Doc;

    fn find_by_id(&self, id: &u16) -> Option<Doc> {
        *self.loads.lock().unwrap().entry(*id).or_default() += 1;
        if self.failing.swap(false, Ordering::SeqCst) {
            std::panic::panic_any(Unavailable);
        }
        if let Some(nested) = NESTED.with(|n| n.borrow_mut().take()) {
            nested();
        }
        let racing = self.racing.load(Ordering::SeqCst);
        let start = self.clock.fetch_add(1, Ordering::SeqCst);
        if racing {
            self.arrivals.fetch_add(1, Ordering::SeqCst);
            // Give the others the time to get here too, before any of them has the document.
            let deadline = Instant::now() + Duration::from_micros(300);
            while self.arrivals.load(Ordering::SeqCst) < self.expected.load(Ordering::SeqCst)
                && Instant::now() < deadline
            {
                std::thread::yield_now();
            }
        }
        let mut val = self.docs.lock().unwrap().get(id).copied();
        if racing {
            let absent = self
                .absent
                .try_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1));
            if absent.is_ok() {
                val = None;
            }
            if self.changing.load(Ordering::SeqCst) {
                val = val.map(|_| 1000 + self.version.fetch_add(1, Ordering::SeqCst));
            }
            self.race_loads.lock().unwrap().push(RaceLoad {
                access: ACCESS_START.get(),
                start,
                end: self.clock.fetch_add(1, Ordering::SeqCst),
                found: val.is_some(),
                by_clone: ON_CLONE.get(),
            });
        }
        val.map(|val| Doc::stored(*id, val))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LOp {
    Lazy(u16),
    Given(u16, u64),
    Access(u8),
    /// An access whose load, if there is one, panics.
    Fail(u8),
    Clone(u8),
    Put(u16, u64),
    Remove(u16),
    /// First accesses from several threads at once, each thread doing so many accesses in a row.
    Race {
        handle: u8,
        threads: Vec<u8>,
        changing: bool,
        /// The first load panics.
        #[serde(default)]
        failing: bool,
        /// So many loads find nothing, before the document appears.
        #[serde(default)]
        absent: u8,
        /// The threads go on with clones of what they accessed.
        #[serde(default)]
        cloning: bool,
    },
    /// An access to the first, whose load, if there is one, accesses the second.
    Nested(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub init: Vec<(u16, u64)>,
    pub ops: Vec<LOp>,
}

struct Expected {
    id: u16,
    content: Option<Doc>,
}

struct Share<'a>(&'a LazyDocument<Repo>);

// SAFETY: `Repo` and `Doc` are both `Send` and `Sync`.
unsafe impl Sync for Share<'_> {}
unsafe impl Send for Share<'_> {}

impl Share<'_> {
    fn doc(&self) -> &LazyDocument<Repo> {
        self.0
    }
}

/// One access during a race: when it began and ended, and what it yielded.
struct Access {
    start: u64,
    end: u64,
    got: std::result::Result<Option<Doc>, ()>,
    /// What a clone made afterwards yielded.
    clone: Option<Option<Doc>>,
}

#[derive(Clone, Copy)]
struct How {
    changing: bool,
    failing: bool,
    absent: u8,
    cloning: bool,
}

fn race(repo: &Arc<State>, doc: &LazyDocument<Repo>, threads: &[u8], how: How) -> Vec<Access> {
    let n = threads.len() as u32;
    repo.arrivals.store(0, Ordering::SeqCst);
    repo.expected.store(n, Ordering::SeqCst);
    repo.changing.store(how.changing, Ordering::SeqCst);
    repo.failing.store(how.failing, Ordering::SeqCst);
    repo.absent.store(how.absent.into(), Ordering::SeqCst);
    repo.race_loads.lock().unwrap().clear();
    repo.racing.store(true, Ordering::SeqCst);
    let ready = AtomicU32::new(0);
    let share = Share(doc);
    let all = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for times in threads {
            let (share, ready, all) = (&share, &ready, &all);
            s.spawn(move || {
                ready.fetch_add(1, Ordering::SeqCst);
                while ready.load(Ordering::SeqCst) < n {
                    std::thread::yield_now();
                }
                for _ in 0..*times {
                    let start = repo.clock.fetch_add(1, Ordering::SeqCst);
                    ACCESS_START.with(|s| s.set(start));
                    let got = catch_unwind(AssertUnwindSafe(|| share.doc().try_deref().cloned()))
                        .map_err(|p| {
                            if !p.is::<Unavailable>() {
                                resume_unwind(p);
                            }
                        });
                    let end = repo.clock.fetch_add(1, Ordering::SeqCst);
                    let clone = (how.cloning && matches!(got, Ok(Some(_)))).then(|| {
                        let copy = share.doc().clone();
                        ON_CLONE.set(true);
                        let got = copy.try_deref().cloned();
                        ON_CLONE.set(false);
                        got
                    });
                    all.lock().unwrap().push(Access {
                        start,
                        end,
                        got,
                        clone,
                    });
                }
            });
        }
    });
    repo.racing.store(false, Ordering::SeqCst);
    repo.changing.store(false, Ordering::SeqCst);
    repo.failing.store(false, Ordering::SeqCst);
    repo.absent.store(0, Ordering::SeqCst);
    all.into_inner().unwrap()
}

pub struct D01;

impl Prop for D01 {
    type Case = Case;

    const ID: &'static str = "D01";
    const RULE: &'static str = "histories of lazy and given documents, accesses (some of whose loads panic), clones, accesses from within loads and repository changes over an instrumented repository that counts loads, with races of two to four (now and then up to thirteen) threads whose loads are made to meet inside the repository (which may answer each of them differently, or only some of them); content and loads compared with a model, every access in a race must yield the one content kept, as must clones made meanwhile; non-trivial: a load that found nothing or a change after loading, and an access repeated; or a race for a document not yet loaded";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "thread interleavings are sampled by the scheduler and a meeting point inside the repository, not enumerated",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let id = 0u16..4;
        let calm = prop_oneof![
            4 => id.clone().prop_map(LOp::Lazy),
            1 => (id.clone(), 100u64..200).prop_map(|(i, v)| LOp::Given(i, v)),
            8 => any::<u8>().prop_map(LOp::Access),
            1 => any::<u8>().prop_map(LOp::Fail),
            3 => any::<u8>().prop_map(LOp::Clone),
            1 => any::<(u8, u8)>().prop_map(|(a, b)| LOp::Nested(a, b)),
            4 => (id.clone(), 0u64..50).prop_map(|(i, v)| LOp::Put(i, v)),
            3 => id.prop_map(LOp::Remove),
        ]
        .boxed();
        let threads = prop_oneof![12 => vec(1u8..4, 2..5), 1 => vec(1u8..4, 5..14)];
        let absent = prop_oneof![3 => Just(0u8), 1 => 1u8..4];
        let race = (any::<u8>(), threads, any::<bool>(), prop::bool::weighted(0.2), absent, any::<bool>()).prop_map(
            |(handle, threads, changing, failing, absent, cloning)| LOp::Race {
                handle,
                threads,
                changing,
                failing,
                absent,
                cloning,
            },
        );
        let init = vec((0u16..4, 0u64..50), 0..4);
        prop_oneof![
            6 => (init.clone(), vec(calm.clone(), 0..25)),
            2 => (init, vec(prop_oneof![5 => calm, 1 => race], 1..12)),
        ]
        .prop_map(|(init, ops)| Case { init, ops })
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(2_000_000, 15_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let repo = Arc::new(State::default());
        let mut docs: BTreeMap<u16, u64> = case.init.iter().copied().collect();
        *repo.docs.lock().unwrap() = docs.clone();
        let build = LazyDocument::builder(Arc::new(Repo(repo.clone())));
        let mut handles: Vec<(LazyDocument<Repo>, Expected)> = Vec::new();
        let (mut missed, mut changed, mut again, mut raced, mut failed) = (false, false, false, false, false);
        let (mut nested, mut flickered) = (false, false);

        for (i, op) in case.ops.iter().enumerate() {
            crate::runner::meanwhile();
            let before = repo.total();
            match op {
                LOp::Lazy(id) => {
                    let doc = match i % 2 {
                        0 => build(*id),
                        _ => LazyDocument::builder(Arc::new(Repo(repo.clone())))(*id),
                    };
                    handles.push((doc, Expected { id: *id, content: None }));
                    ensure!(repo.total() == before, "op {i}: building a lazy document loads");
                }
                LOp::Given(id, val) => {
                    let doc = LazyDocument::new(Arc::new(Repo(repo.clone())), Doc { id: *id, val: *val });
                    handles.push((
                        doc,
                        Expected {
                            id: *id,
                            content: Some(Doc { id: *id, val: *val }),
                        },
                    ));
                    ensure!(repo.total() == before, "op {i}: a given document loads");
                }
                LOp::Put(id, val) => {
                    docs.insert(*id, *val);
                    repo.docs.lock().unwrap().insert(*id, *val);
                }
                LOp::Remove(id) => {
                    docs.remove(id);
                    repo.docs.lock().unwrap().remove(id);
                }
                LOp::Access(_) | LOp::Fail(_) | LOp::Clone(_) | LOp::Nested(..) | LOp::Race { .. }
                    if handles.is_empty() => {}
                LOp::Clone(h) => {
                    let h = usize::from(*h) % handles.len();
                    let copy = handles[h].0.clone();
                    let expected = Expected {
                        id: handles[h].1.id,
                        content: handles[h].1.content.clone(),
                    };
                    handles.push((copy, expected));
                    ensure!(repo.total() == before, "op {i}: cloning loads");
                }
                LOp::Access(h) => {
                    let h = usize::from(*h) % handles.len();
                    let (doc, expected) = &mut handles[h];
                    let loads = repo.of(expected.id);
                    let got = doc.try_deref().cloned();
                    let now = docs.get(&expected.id).map(|val| Doc::stored(expected.id, *val));
                    let cached = expected.content.is_some();
                    again |= cached;
                    changed |= cached && expected.content != now;
                    missed |= !cached && now.is_none();
                    let want = expected.content.clone().or(now);
                    ensure_eq!(got, want, "op {i}: document {h}");
                    ensure_eq!(
                        repo.of(expected.id) - loads,
                        u64::from(!cached),
                        "op {i}: loads of document {h}"
                    );
                    ensure_eq!(repo.total() - before, u64::from(!cached), "op {i}: all loads");
                    expected.content = want;
                }
                LOp::Fail(h) => {
                    let h = usize::from(*h) % handles.len();
                    let (doc, expected) = &handles[h];
                    repo.failing.store(true, Ordering::SeqCst);
                    let r = catch_unwind(AssertUnwindSafe(|| doc.try_deref().cloned()));
                    repo.failing.store(false, Ordering::SeqCst);
                    ensure_eq!(
                        repo.total() - before,
                        u64::from(expected.content.is_none()),
                        "op {i}: loads of document {h}"
                    );
                    match r {
                        Ok(got) => {
                            ensure_eq!(got, expected.content, "op {i}: document {h}, load failing");
                        }
                        Err(p) => {
                            ensure!(
                                p.is::<Unavailable>() && expected.content.is_none(),
                                "op {i}: access to document {h} panicked"
                            );
                            failed = true;
                        }
                    }
                }
                LOp::Nested(a, b) => {
                    let (a, b) = (usize::from(*a) % handles.len(), usize::from(*b) % handles.len());
                    if a == b {
                        continue;
                    }
                    let yielded = Arc::new(Mutex::new(None));
                    // SAFETY: the load happens, if at all, during the access below, and what is left
                    // is dropped right after it.
                    let other: &'static LazyDocument<Repo> = unsafe { &*std::ptr::from_ref(&handles[b].0) };
                    let slot = yielded.clone();
                    NESTED.with(|n| {
                        *n.borrow_mut() = Some(Box::new(move || {
                            *slot.lock().unwrap() = Some(other.try_deref().cloned());
                        }));
                    });
                    let got = handles[a].0.try_deref().cloned();
                    NESTED.with(|n| *n.borrow_mut() = None);

                    let mut loads = 0;
                    for (h, got) in [(b, yielded.lock().unwrap().clone()), (a, Some(got))] {
                        let (_, expected) = &mut handles[h];
                        let Some(got) = got else { continue };
                        loads += u64::from(expected.content.is_none());
                        if expected.content.is_none() {
                            expected.content = docs.get(&expected.id).map(|val| Doc::stored(expected.id, *val));
                        }
                        ensure_eq!(
                            got,
                            expected.content,
                            "op {i}: document {h}, one accessed from within the load of the other"
                        );
                    }
                    ensure_eq!(repo.total() - before, loads, "op {i}: all loads");
                    nested |= loads > 1;
                }
                LOp::Race {
                    handle,
                    threads,
                    changing,
                    failing,
                    absent,
                    cloning,
                } => {
                    let h = usize::from(*handle) % handles.len();
                    let (doc, expected) = &mut handles[h];
                    let cached = expected.content.clone();
                    let now = docs.get(&expected.id).map(|val| Doc::stored(expected.id, *val));
                    let how = How {
                        changing: *changing,
                        failing: *failing,
                        absent: *absent,
                        cloning: *cloning,
                    };
                    let accesses = race(&repo, doc, threads, how);
                    let panicked = accesses.iter().filter(|a| a.got.is_err()).count();
                    ensure!(
                        panicked <= usize::from(*failing && cached.is_none()),
                        "op {i}: {panicked} accesses panicked"
                    );
                    // The access whose load panicked is out of the race.
                    let done: Vec<(&Access, &Option<Doc>)> = accesses
                        .iter()
                        .filter_map(|a| Some((a, a.got.as_ref().ok()?)))
                        .collect();
                    let loads = std::mem::take(&mut *repo.race_loads.lock().unwrap());
                    if cached.is_some() {
                        ensure!(repo.total() == before, "op {i}: loads again in a race");
                    }
                    ensure!(
                        !loads.iter().any(|l| l.by_clone),
                        "op {i}: a clone of a document with content loads"
                    );

                    // All that yield something agree on what it is, clones included.
                    let kept = cached
                        .clone()
                        .or_else(|| done.iter().find_map(|(_, got)| (*got).clone()));
                    if let Some(kept) = &kept {
                        ensure!(
                            done.iter().all(|(_, got)| got.is_none() || got.as_ref() == Some(kept)),
                            "op {i}: accesses disagree: {:?}",
                            done.iter().map(|(_, got)| got).collect::<Vec<_>>()
                        );
                        let want = match &cached {
                            None if *changing && now.is_some() => Some(Doc::stored(expected.id, kept.val)),
                            None => now.clone(),
                            cached => cached.clone(),
                        };
                        ensure!(
                            want.as_ref() == Some(kept),
                            "op {i}: race got {kept:?}, document has {cached:?}, repository has {now:?}"
                        );
                    }
                    for clone in accesses.iter().filter_map(|a| a.clone.as_ref()) {
                        ensure!(
                            *clone == kept,
                            "op {i}: a clone yields {clone:?}, the document {kept:?}"
                        );
                    }

                    // Nothing is what an access may yield only if a load meanwhile found nothing, and
                    // none that began after some other yielded something may.
                    let loaded = match cached {
                        Some(_) => 0,
                        None => done
                            .iter()
                            .filter(|(_, got)| got.is_some())
                            .map(|(a, _)| a.end)
                            .min()
                            .unwrap_or(u64::MAX),
                    };
                    for (a, got) in &done {
                        if got.is_some() {
                            continue;
                        }
                        ensure!(
                            cached.is_none() && a.start < loaded,
                            "op {i}: yields nothing after having content"
                        );
                        ensure!(
                            loads.iter().any(|l| !l.found && l.start < a.end && l.end > a.start),
                            "op {i}: the document is there, but the accesses of {} threads got {:?}",
                            threads.len(),
                            done.iter().map(|(_, got)| got).collect::<Vec<_>>()
                        );
                    }
                    ensure!(
                        !loads.iter().any(|l| l.access > loaded),
                        "op {i}: loaded again after content was there"
                    );
                    ensure!(
                        kept.is_some() || !loads.iter().any(|l| l.found),
                        "op {i}: a load found the document, but no access yielded it"
                    );
                    expected.content = kept;
                    raced |= cached.is_none() && now.is_some() && !done.is_empty();
                    flickered |= cached.is_none() && loads.iter().any(|l| l.found) && loads.iter().any(|l| !l.found);
                }
            }
            for (h, (doc, expected)) in handles.iter().enumerate() {
                ensure_eq!(*doc.id(), expected.id, "op {i}: identifier of document {h}");
            }
        }

        // What has content keeps it, even when the repository is emptied.
        repo.docs.lock().unwrap().clear();
        for (h, (doc, expected)) in handles.iter().enumerate() {
            let got = doc.try_deref().cloned();
            ensure_eq!(got, expected.content, "at the end: document {h}");
        }

        obs.nontrivial(raced || (again && (changed || missed)));
        obs.label_if(raced, "races for a document not yet loaded");
        obs.label_if(flickered, "races in which some loads found nothing");
        obs.label_if(nested, "loads from within loads");
        obs.label_if(failed, "loads that panicked");
        obs.label_if(changed, "changed after loading");
        obs.label_if(missed, "loads that found nothing");
        Ok(())
    }
}
