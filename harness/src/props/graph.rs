//! The graph as a map (G01) and the handles of its nodes (G02).

use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    collections::BTreeMap,
    fmt::Debug,
    marker::PhantomData,
    path::PathBuf,
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Mutex,
    },
    time::{Duration, Instant},
};

use plotline::{
    deref::TryDeref,
    graph::{Graph, NodeProxy, Source},
    id::Identify,
    property::Property,
    schema::{
        transaction::{Context, Transaction},
        Schema,
    },
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{Obs, Prop, Tier, R},
};

// ---------------------------------------------------------------------------------------------
// G01
// ---------------------------------------------------------------------------------------------

/// A type of identifier, with an injection from small numbers.
trait Key: Ord + Clone + Debug + 'static {
    fn make(k: u16) -> Self;
}

impl Key for u16 {
    fn make(k: u16) -> Self {
        k
    }
}

impl Key for i64 {
    fn make(k: u16) -> Self {
        match k {
            0 => i64::MIN,
            1 => i64::MAX,
            k if k % 2 == 0 => -i64::from(k),
            k => i64::from(k),
        }
    }
}

impl Key for String {
    fn make(k: u16) -> Self {
        // Prefixes of each other, the empty string, and multi-byte characters.
        match k % 3 {
            0 => "a".repeat(usize::from(k / 3)),
            1 => format!("{}é", "a".repeat(usize::from(k / 3))),
            _ => format!("{}\u{0}", "b".repeat(usize::from(k / 3))),
        }
    }
}

impl Key for PathBuf {
    fn make(k: u16) -> Self {
        match k % 3 {
            0 => PathBuf::from(format!("d{}", k / 3)),
            1 => PathBuf::from(format!("d{}/x", k / 3)),
            _ => PathBuf::from(format!("d{}.x", k / 3)),
        }
    }
}

impl Key for (u8, String) {
    fn make(k: u16) -> Self {
        ((k % 4) as u8, format!("{}", k / 4))
    }
}

/// Ordered the other way around.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Rev(u16);

impl PartialOrd for Rev {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Rev {
    fn cmp(&self, other: &Self) -> Ordering {
        other.0.cmp(&self.0)
    }
}

impl Key for Rev {
    fn make(k: u16) -> Self {
        Rev(k)
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Item<I> {
    id: I,
    val: u32,
}

impl<I> Identify for Item<I> {
    type Id = I;

    fn id(&self) -> &I {
        &self.id
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GOp {
    Insert(u16, u32),
    Remove(u16),
    /// Chained inserts on the graph by value.
    With(Vec<(u16, u32)>),
    /// Builds the graph anew from what it yields followed by further nodes.
    Rebuild(Vec<(u16, u32)>),
    /// Removes everything that is there, in the order of iteration.
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case01 {
    pub kind: u8,
    /// Through the guards of a schema instead of on the graph itself.
    pub guards: bool,
    pub keys: u16,
    pub init: Vec<(u16, u32)>,
    pub ops: Vec<GOp>,
}

pub struct G01;

type Model<I> = BTreeMap<I, u32>;

fn items<I: Key>(v: &[(u16, u32)]) -> Vec<Item<I>> {
    v.iter()
        .map(|(k, val)| Item {
            id: I::make(*k),
            val: *val,
        })
        .collect()
}

fn agree<I: Key>(graph: &Graph<Item<I>>, model: &Model<I>, probe: &[I], at: &str) -> R {
    let got: Vec<(I, u32)> = graph.into_iter().map(|n| (n.id.clone(), n.val)).collect();
    let want: Vec<(I, u32)> = model.iter().map(|(k, v)| (k.clone(), *v)).collect();
    ensure_eq!(got, want, "{at}: iteration");
    for id in probe {
        let want = model.get(id).copied();
        ensure_eq!(
            graph.get(id).map(|n| (n.id, n.val)),
            want.map(|v| (id.clone(), v)),
            "{at}: get {id:?}"
        );
        ensure_eq!(graph.contains(id), want.is_some(), "{at}: contains {id:?}");
        let handle = graph.node(id.clone());
        ensure_eq!(handle.id().clone(), id.clone(), "{at}: id of the handle");
        ensure_eq!(handle.is_virtual(), want.is_none(), "{at}: handle {id:?} is virtual");
        ensure_eq!(
            handle.try_deref().map(|n| (n.id.clone(), n.val)),
            want.map(|v| (id.clone(), v)),
            "{at}: handle {id:?}"
        );
    }
    Ok(())
}

/// Something that holds a graph that can be got at.
enum Holder<I: Key> {
    Plain(Graph<Item<I>>),
    Guarded(Schema<Item<I>>),
}

impl<I: Key> Holder<I> {
    fn write<T>(&mut self, f: impl FnOnce(&mut Graph<Item<I>>) -> T) -> T {
        match self {
            Holder::Plain(g) => f(g),
            Holder::Guarded(s) => f(&mut s.write()),
        }
    }

    fn read<T>(&self, f: impl FnOnce(&Graph<Item<I>>) -> T) -> T {
        match self {
            Holder::Plain(g) => f(g),
            Holder::Guarded(s) => f(&s.read()),
        }
    }
}

/// What yields nodes one after another, and knows more or less about how many there are.
struct Stream<T> {
    nodes: std::vec::IntoIter<T>,
    knows: usize,
}

impl<T> Stream<T> {
    fn new(nodes: Vec<T>, knows: usize) -> Self {
        Self {
            nodes: nodes.into_iter(),
            knows: knows % 5,
        }
    }
}

impl<T> Iterator for Stream<T> {
    type Item = T;

    fn next(&mut self) -> Option<T> {
        self.nodes.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.nodes.len();
        match self.knows {
            0 => (0, None),
            1 => (0, Some(2 * n)),
            2 => (n / 2, None),
            3 => (n / 3, Some(n + 3)),
            _ => (n, Some(n)),
        }
    }
}

fn graph_history<I: Key>(case: &Case01, obs: &mut Obs) -> R {
    let keys = case.keys.max(1);
    let fit = |v: &[(u16, u32)]| -> Vec<(u16, u32)> { v.iter().map(|(k, x)| (k % keys, *x)).collect() };
    let probe: Vec<I> = (0..keys.min(24) + 1).map(I::make).collect();

    let init = fit(&case.init);
    let mut model: Model<I> = BTreeMap::new();
    for (k, v) in &init {
        model.insert(I::make(*k), *v);
    }
    let mut collisions = model.len() < init.len();
    let knows = case.init.len() + case.ops.len();
    let graph = Graph::from_iter(Stream::new(items::<I>(&init), knows));
    let mut holder = if case.guards {
        Holder::Guarded(Schema::from(graph))
    } else {
        Holder::Plain(graph)
    };
    holder.read(|g| agree(g, &model, &probe, "after building"))?;

    let mut removed = false;
    for (i, op) in case.ops.iter().enumerate() {
        crate::runner::meanwhile();
        match op {
            GOp::Insert(k, v) => {
                let id = I::make(k % keys);
                let old = model.insert(id.clone(), *v);
                let got = holder.write(|g| g.insert(Item { id: id.clone(), val: *v }));
                ensure_eq!(
                    got.map(|n| (n.id, n.val)),
                    old.map(|v| (id, v)),
                    "op {i}: result of {op:?}"
                );
                collisions |= old.is_some();
            }
            GOp::Remove(k) => {
                let id = I::make(k % keys);
                let old = model.remove(&id);
                let got = holder.write(|g| g.remove(&id));
                ensure_eq!(
                    got.map(|n| (n.id, n.val)),
                    old.map(|v| (id, v)),
                    "op {i}: result of {op:?}"
                );
                removed |= old.is_some();
            }
            GOp::With(nodes) => {
                let nodes = fit(nodes);
                holder.write(|g| {
                    let mut new = std::mem::take(g);
                    for node in items::<I>(&nodes) {
                        new = new.with_node(node);
                    }
                    *g = new;
                });
                for (k, v) in nodes {
                    collisions |= model.insert(I::make(k), v).is_some();
                }
            }
            GOp::Rebuild(nodes) => {
                let nodes = fit(nodes);
                holder.write(|g| {
                    let all: Vec<_> = g.into_iter().cloned().chain(items::<I>(&nodes)).collect();
                    *g = Graph::from_iter(Stream::new(all, knows + i));
                });
                for (k, v) in nodes {
                    collisions |= model.insert(I::make(k), v).is_some();
                }
            }
            GOp::Clear => {
                let ids: Vec<I> = holder.read(|g| g.into_iter().map(|n| n.id.clone()).collect());
                for id in ids {
                    let want = model.remove(&id);
                    let got = holder.write(|g| g.remove(&id));
                    ensure_eq!(got.map(|n| n.val), want, "op {i}: removing {id:?}");
                    removed = true;
                }
                ensure!(model.is_empty(), "op {i}: iteration missed {model:?}");
            }
        }
        holder.read(|g| agree(g, &model, &probe, &format!("after op {i} {op:?}")))?;
    }

    obs.nontrivial(collisions && removed);
    obs.label_if(collisions, "collisions");
    obs.label_if(removed, "removals");
    obs.label_if(case.guards, "through guards");
    Ok(())
}

impl Prop for G01 {
    type Case = Case01;

    const ID: &'static str = "G01";
    const RULE: &'static str = "histories of build, insert, chained insert, remove, rebuild and clear over six identifier types (extreme numbers, prefix strings, paths, tuples, reversed order), on a plain graph or through schema guards; content by lookup, membership, handle and iteration compared with a map after every step; non-trivial: at least one colliding identifier and one effective removal";

    fn strategy(tier: Tier) -> BoxedStrategy<Case01> {
        let history = |keys: std::ops::RangeInclusive<u16>, len: usize| {
            (0u8..6, any::<bool>(), keys)
                .prop_flat_map(move |(kind, guards, keys)| {
                    let node = (0..keys, 0u32..1000);
                    let op = prop_oneof![
                        6 => node.clone().prop_map(|(k, v)| GOp::Insert(k, v)),
                        5 => (0..keys).prop_map(GOp::Remove),
                        2 => vec(node.clone(), 0..5).prop_map(GOp::With),
                        1 => vec(node.clone(), 0..5).prop_map(GOp::Rebuild),
                        1 => Just(GOp::Clear),
                    ];
                    (vec(node, 0..=len), vec(op, 0..=len)).prop_map(move |(init, ops)| Case01 {
                        kind,
                        guards,
                        keys,
                        init,
                        ops,
                    })
                })
                .boxed()
        };
        let big = tier.pick(60, 300);
        let large = 1;
        prop_oneof![
            80 * 8 => history(1..=6, 10),
            80 * 2 => history(7..=24, 40),
            80 => history(100..=400, big),
            large => history(1000..=5000, 20).prop_map(|case| {
                // As good as all of the identifiers, in some order.
                let keys = u32::from(case.keys);
                let step = (case.ops.len() as u32 * 2 + 1) | 1;
                let init = (0..keys).map(|k| ((k * step % keys) as u16, k)).chain(case.init).collect();
                Case01 { init, ops: case.ops.into_iter().take(6).collect(), ..case }
            }),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(1_500_000, 15_000_000)
    }

    fn run(case: &Case01, obs: &mut Obs) -> R {
        match case.kind % 6 {
            0 => graph_history::<u16>(case, obs),
            1 => graph_history::<i64>(case, obs),
            2 => graph_history::<String>(case, obs),
            3 => graph_history::<PathBuf>(case, obs),
            4 => graph_history::<(u8, String)>(case, obs),
            _ => graph_history::<Rev>(case, obs),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// G02
// ---------------------------------------------------------------------------------------------

#[derive(
    Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize,
)]
pub struct Vertex {
    pub id: u16,
    pub tag: u32,
    pub a: Vec<u16>,
    pub b: Vec<u16>,
}

impl Identify for Vertex {
    type Id = u16;

    fn id(&self) -> &u16 {
        &self.id
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct EdgeA(u16);

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct EdgeB(u16);

impl Property<Vertex> for EdgeA {
    fn all(source: &Vertex) -> Vec<Self> {
        source.a.iter().map(|id| EdgeA(*id)).collect()
    }
}

impl Property<Vertex> for EdgeB {
    fn all(source: &Vertex) -> Vec<Self> {
        source.b.iter().map(|id| EdgeB(*id)).collect()
    }
}

impl Identify for EdgeA {
    type Id = u16;

    fn id(&self) -> &u16 {
        &self.0
    }
}

impl Identify for EdgeB {
    type Id = u16;

    fn id(&self) -> &u16 {
        &self.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum POp {
    New(u16),
    Deref(u8),
    Clone(u8),
    Virtual(u8),
    Succ(u8, bool),
    Put(Vertex),
    Remove(u16),
    /// Read by several threads at once, each of which does so twice and then clones the handle.
    Race(u8, u8),
    /// Read, while the read of the source, if there is one, reads another handle.
    Nested(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case02 {
    /// 0: instrumented source, 1: open transaction, 2: transaction nested in another, 3: graph,
    /// 4: instrumented source for several threads.
    pub source: u8,
    pub init: Vec<Vertex>,
    pub ops: Vec<POp>,
}

/// What is there under an identifier; some sources have nodes that carry another one.
fn found(nodes: &BTreeMap<u16, Vertex>, id: u16, aliases: bool) -> Option<Vertex> {
    let mut node = nodes.get(&id)?.clone();
    if aliases && node.tag % 16 == 15 {
        node.id = id + 1000;
    }
    Some(node)
}

/// A source that counts how often it is read.
struct Counting {
    nodes: RefCell<BTreeMap<u16, Vertex>>,
    gets: Cell<u64>,
}

impl Source for Counting {
    type Node = Vertex;

    fn get(&self, id: &u16) -> Option<Vertex> {
        self.gets.set(self.gets.get() + 1);
        found(&self.nodes.borrow(), *id, true)
    }

    fn contains(&self, id: &u16) -> bool {
        self.nodes.borrow().contains_key(id)
    }
}

thread_local! {
    /// What the next read of this thread does before it answers.
    static NESTED: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}

/// A source for several threads, whose reads meet if they can.
#[derive(Default)]
struct Meeting {
    nodes: Mutex<BTreeMap<u16, Vertex>>,
    gets: AtomicU64,
    expected: AtomicU64,
    arrivals: AtomicU64,
}

impl Source for Meeting {
    type Node = Vertex;

    fn get(&self, id: &u16) -> Option<Vertex> {
        self.gets.fetch_add(1, SeqCst);
        if let Some(nested) = NESTED.with(|n| n.borrow_mut().take()) {
            nested();
        }
        self.arrivals.fetch_add(1, SeqCst);
        let deadline = Instant::now() + Duration::from_micros(100);
        while self.arrivals.load(SeqCst) < self.expected.load(SeqCst) && Instant::now() < deadline {
            std::thread::yield_now();
        }
        found(&self.nodes.lock().unwrap(), *id, true)
    }

    fn contains(&self, id: &u16) -> bool {
        self.nodes.lock().unwrap().contains_key(id)
    }
}

/// Whether a type may be shared among threads.
struct Shareable<T>(PhantomData<T>);

#[allow(dead_code)]
trait NotShareable {
    const SYNC: bool = false;
}

impl<T> NotShareable for Shareable<T> {}

impl<T: Sync> Shareable<T> {
    const SYNC: bool = true;
}

struct Share<'a, 's>(&'a NodeProxy<'s, Meeting>);

// SAFETY: used only where the handle is `Sync`.
unsafe impl Sync for Share<'_, '_> {}
unsafe impl Send for Share<'_, '_> {}

impl<'a, 's> Share<'a, 's> {
    fn handle(&self) -> &'a NodeProxy<'s, Meeting> {
        self.0
    }
}

/// All that `n` threads got from the handle and from clones of it; nothing if it can't be shared.
fn race(handle: &NodeProxy<'_, Meeting>, n: u8) -> Option<Vec<Option<Vertex>>> {
    if !Shareable::<NodeProxy<'static, Meeting>>::SYNC {
        return None;
    }
    let n = u64::from(n);
    let source = handle.source;
    source.arrivals.store(0, SeqCst);
    source.expected.store(n, SeqCst);
    let (share, ready, all) = (Share(handle), AtomicU64::new(0), Mutex::new(Vec::new()));
    std::thread::scope(|s| {
        for _ in 0..n {
            let (share, ready, all) = (&share, &ready, &all);
            s.spawn(move || {
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < n {
                    std::thread::yield_now();
                }
                let handle = share.handle();
                let mut got = vec![handle.try_deref().cloned()];
                let copy = handle.clone();
                got.push(handle.try_deref().cloned());
                got.push(copy.try_deref().cloned());
                all.lock().unwrap().extend(got);
            });
        }
    });
    source.expected.store(0, SeqCst);
    Some(all.into_inner().unwrap())
}

/// A handle as it should behave.
#[derive(Clone)]
struct Expected {
    id: u16,
    read: Option<Option<Vertex>>,
}

const MAX_HANDLES: usize = 200;

fn walk<S>(
    source: &S,
    mut nodes: BTreeMap<u16, Vertex>,
    ops: &[POp],
    change: impl Fn(&S, &Result<Vertex, u16>) -> bool,
    reads: impl Fn(&S) -> Option<u64>,
    race: impl for<'a> Fn(&NodeProxy<'a, S>, u8) -> Option<Vec<Option<Vertex>>>,
    obs: &mut Obs,
) -> R
where
    S: Source<Node = Vertex>,
{
    let mut handles: Vec<(NodeProxy<'_, S>, Expected)> = Vec::new();
    let aliases = reads(source).is_some();
    let (mut raced, mut nested) = (false, false);
    let (mut stale, mut dangling, mut walked) = (false, false, false);

    for (i, op) in ops.iter().enumerate() {
        crate::runner::meanwhile();
        let at = |h: u8, n: usize| usize::from(h) % n;
        match op {
            POp::New(id) => handles.push((
                NodeProxy::new(source, *id),
                Expected { id: *id, read: None },
            )),
            POp::Put(v) => {
                if change(source, &Ok(v.clone())) {
                    nodes.insert(v.id, v.clone());
                }
            }
            POp::Remove(id) => {
                if change(source, &Err(*id)) {
                    nodes.remove(id);
                }
            }
            POp::Deref(_) | POp::Clone(_) | POp::Virtual(_) | POp::Succ(..) | POp::Race(..) | POp::Nested(..)
                if handles.is_empty() => {}
            POp::Race(h, n) => {
                let h = at(*h, handles.len());
                let (handle, expected) = &mut handles[h];
                let unread = expected.read.is_none();
                let mut all = Vec::new();
                read_once(i, h, handle, expected, &nodes, &reads, source, |p| {
                    all = race(p, *n).unwrap_or_default();
                    p.try_deref().cloned()
                })?;
                let want = expected.read.clone().flatten();
                ensure!(
                    all.iter().all(|got| *got == want),
                    "op {i}: handle {h} of {} yields {want:?}, to {n} threads {all:?}",
                    expected.id
                );
                raced |= unread && !all.is_empty();
            }
            POp::Nested(a, b) => {
                let (a, b) = (at(*a, handles.len()), at(*b, handles.len()));
                let yielded = Rc::new(RefCell::new(None));
                if a != b {
                    let slot = yielded.clone();
                    let other: *const NodeProxy<'_, S> = &handles[b].0;
                    let read: Box<dyn FnOnce() + '_> = Box::new(move || {
                        // SAFETY: run, if at all, during the read below.
                        *slot.borrow_mut() = Some(unsafe { &*other }.try_deref().cloned());
                    });
                    // SAFETY: taken back right after the read.
                    let read: Box<dyn FnOnce()> = unsafe { std::mem::transmute(read) };
                    NESTED.with(|n| *n.borrow_mut() = Some(read));
                }
                let before = reads(source);
                let got = handles[a].0.try_deref().cloned();
                let after = reads(source);
                NESTED.with(|n| *n.borrow_mut() = None);
                let inner = yielded.borrow_mut().take();
                let mut allowed = 0;
                for (h, got) in [(b, inner), (a, Some(got))] {
                    let Some(got) = got else { continue };
                    let expected = &mut handles[h].1;
                    allowed += u64::from(expected.read.is_none());
                    let want = expected
                        .read
                        .get_or_insert_with(|| found(&nodes, expected.id, aliases));
                    ensure_eq!(got, *want, "op {i}: handle {h}, one read from within the read of the other");
                }
                if let (Some(before), Some(after)) = (before, after) {
                    ensure!(
                        after - before <= allowed,
                        "op {i}: handles {a} and {b} read their source {} times, {allowed} allowed",
                        after - before
                    );
                }
                nested |= allowed > 1;
            }
            POp::Clone(h) => {
                let h = at(*h, handles.len());
                if handles.len() < MAX_HANDLES {
                    let copy = handles[h].0.clone();
                    let expected = handles[h].1.clone();
                    handles.push((copy, expected));
                }
            }
            POp::Virtual(h) => {
                let h = at(*h, handles.len());
                let (handle, expected) = &handles[h];
                ensure_eq!(
                    handle.is_virtual(),
                    !nodes.contains_key(&expected.id),
                    "op {i}: handle {h} of {} is virtual",
                    expected.id
                );
            }
            POp::Deref(h) => {
                let h = at(*h, handles.len());
                let (handle, expected) = &mut handles[h];
                read_once(i, h, handle, expected, &nodes, &reads, source, |p| {
                    p.try_deref().cloned()
                })?;
                let now = found(&nodes, expected.id, aliases);
                stale |= expected.read.as_ref() != Some(&now);
            }
            POp::Succ(h, b) => {
                let h = at(*h, handles.len());
                let (handle, expected) = &mut handles[h];
                let mut next: Vec<NodeProxy<'_, S>> = Vec::new();
                let was_read = expected.read.is_some();
                read_once(i, h, handle, expected, &nodes, &reads, source, |p| {
                    next = if *b {
                        p.successors::<EdgeB>()
                    } else {
                        p.successors::<EdgeA>()
                    };
                    // What the handle itself holds is looked at after following its edges.
                    p.try_deref().cloned()
                })?;
                let want: Vec<u16> = match &expected.read {
                    Some(Some(v)) if *b => v.b.clone(),
                    Some(Some(v)) => v.a.clone(),
                    _ => Vec::new(),
                };
                let got: Vec<u16> = next.iter().map(|p| *p.id()).collect();
                ensure_eq!(got, want, "op {i}: successors of handle {h} (already read: {was_read})");
                ensure!(
                    next.iter().all(|p| std::ptr::eq(p.source, source)),
                    "op {i}: a successor is on another source"
                );
                walked |= !want.is_empty() && handles.len() > 1;
                dangling |= want.iter().any(|id| !nodes.contains_key(id));
                for p in next {
                    if handles.len() < MAX_HANDLES {
                        let id = *p.id();
                        handles.push((p, Expected { id, read: None }));
                    }
                }
            }
        }
        for (h, (handle, expected)) in handles.iter().enumerate() {
            ensure!(
                *handle.id() == expected.id && handle.id == expected.id,
                "op {i}: handle {h} changed identifier"
            );
        }
    }

    // Every handle repeats its answer for good; the unread ones answer with what is there now.
    for (h, (handle, expected)) in handles.iter_mut().enumerate() {
        for _ in 0..2 {
            read_once(ops.len(), h, handle, expected, &nodes, &reads, source, |p| {
                p.try_deref().cloned()
            })?;
        }
        ensure_eq!(
            handle.is_virtual(),
            !nodes.contains_key(&expected.id),
            "at the end: handle {h} is virtual"
        );
    }

    obs.nontrivial(walked || stale || raced);
    obs.label_if(raced, "first read by several threads");
    obs.label_if(nested, "reads from within reads");
    obs.label_if(stale, "source changed under a read handle");
    obs.label_if(dangling, "dangling edges");
    obs.label_if(walked, "edges followed");
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn read_once<'a, S>(
    i: usize,
    h: usize,
    handle: &NodeProxy<'a, S>,
    expected: &mut Expected,
    nodes: &BTreeMap<u16, Vertex>,
    reads: &impl Fn(&S) -> Option<u64>,
    source: &S,
    f: impl FnOnce(&NodeProxy<'a, S>) -> Option<Vertex>,
) -> R
where
    S: Source<Node = Vertex>,
{
    let allowed = u64::from(expected.read.is_none());
    let before = reads(source);
    let got = f(handle);
    let want = expected
        .read
        .get_or_insert_with(|| found(nodes, expected.id, reads(source).is_some()));
    ensure_eq!(got, *want, "op {i}: handle {h} of {}", expected.id);
    if let (Some(before), Some(after)) = (before, reads(source)) {
        ensure!(
            after - before <= allowed,
            "op {i}: handle {h} read its source {} times, {allowed} allowed",
            after - before
        );
    }
    Ok(())
}

pub struct G02;

impl Prop for G02 {
    type Case = Case02;

    const ID: &'static str = "G02";
    const RULE: &'static str = "directed graphs with two kinds of edges (cycles, self loops, parallel and dangling edges) and walks over handles, their clones and successors while the source changes; sources: an instrumented one that counts reads, one that several threads read at once (both with nodes that carry another identifier than the one they are found under), an open transaction, a nested one, a plain graph; compared with a model of each handle; non-trivial: edges followed from a handle, a source that changed under a handle already read, or a first read by several threads";

    fn strategy(_: Tier) -> BoxedStrategy<Case02> {
        let walks = |ids: u16, edges: usize, nodes: usize, len: usize| {
            let vertex = (
                0..ids,
                0u32..100,
                vec(0..=ids, 0..=edges),
                vec(0..=ids, 0..=edges),
            )
                .prop_map(|(id, tag, a, b)| Vertex { id, tag, a, b });
            let op = prop_oneof![
                3 => (0..=ids).prop_map(POp::New),
                5 => any::<u8>().prop_map(POp::Deref),
                2 => any::<u8>().prop_map(POp::Clone),
                2 => any::<u8>().prop_map(POp::Virtual),
                4 => (any::<u8>(), any::<bool>()).prop_map(|(h, b)| POp::Succ(h, b)),
                2 => vertex.clone().prop_map(POp::Put),
                1 => (0..ids).prop_map(POp::Remove),
            ];
            let some = (vec(vertex.clone(), 0..=nodes), vec(op.clone(), 0..=len));
            let op = prop_oneof![
                12 => op,
                1 => (any::<u8>(), 2u8..5).prop_map(|(h, n)| POp::Race(h, n)),
                2 => any::<(u8, u8)>().prop_map(|(a, b)| POp::Nested(a, b)),
            ];
            let shared = (vec(vertex, 0..=nodes), vec(op, 0..=len));
            prop_oneof![
                24 => (0u8..4, some).prop_map(|(source, (init, ops))| Case02 { source, init, ops }),
                1 => shared.prop_map(|(init, ops)| Case02 { source: 4, init, ops }),
            ]
            .boxed()
        };
        prop_oneof![
            20 => walks(6, 3, 7, 29),
            2 => walks(6, 90, 4, 10),
            1 => walks(60, 3, 80, 40),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(4_000_000, 25_000_000)
    }

    fn run(case: &Case02, obs: &mut Obs) -> R {
        let nodes: BTreeMap<u16, Vertex> = case.init.iter().map(|v| (v.id, v.clone())).collect();
        let graph = || Graph::from_iter(case.init.iter().cloned());
        let write = |ctx: &Context<'_, Vertex>, change: &Result<Vertex, u16>| {
            match change {
                Ok(v) => ctx.save(v.clone()),
                Err(id) => ctx.delete(*id),
            }
            true
        };
        match case.source % 5 {
            0 => {
                let source = Counting {
                    nodes: RefCell::new(nodes.clone()),
                    gets: Cell::new(0),
                };
                walk(
                    &source,
                    nodes,
                    &case.ops,
                    |s, change| {
                        match change {
                            Ok(v) => s.nodes.borrow_mut().insert(v.id, v.clone()),
                            Err(id) => s.nodes.borrow_mut().remove(id),
                        };
                        true
                    },
                    |s| Some(s.gets.get()),
                    |_, _| None,
                    obs,
                )
            }
            1 => {
                let schema = Schema::from(graph());
                let tx = schema.transaction();
                let ctx = Context::from(&tx);
                walk(&ctx, nodes, &case.ops, write, |_| None, |_, _| None, obs)
            }
            2 => {
                let schema = Schema::from(graph());
                let mut result = Ok(());
                let _ = schema.transaction().with(|outer| {
                    let tx = outer.transaction();
                    let ctx = Context::from(&tx);
                    // Changes alternate between the two levels where both have the same effect.
                    let turn = Cell::new(0u32);
                    let touched = RefCell::new(std::collections::BTreeSet::new());
                    result = walk(
                        &ctx,
                        nodes,
                        &case.ops,
                        |ctx, change| {
                            let id = match change {
                                Ok(v) => v.id,
                                Err(id) => *id,
                            };
                            turn.set(turn.get() + 1);
                            if turn.get() % 2 == 0 && !touched.borrow().contains(&id) {
                                write(&outer, change)
                            } else {
                                touched.borrow_mut().insert(id);
                                write(ctx, change)
                            }
                        },
                        |_| None,
                        |_, _| None,
                        obs,
                    );
                    Ok(())
                });
                result
            }
            3 => {
                let source = graph();
                walk(&source, nodes, &case.ops, |_, _| false, |_| None, |_, _| None, obs)
            }
            _ => {
                let source = Meeting {
                    nodes: Mutex::new(nodes.clone()),
                    ..Default::default()
                };
                walk(
                    &source,
                    nodes,
                    &case.ops,
                    |s, change| {
                        let mut nodes = s.nodes.lock().unwrap();
                        match change {
                            Ok(v) => nodes.insert(v.id, v.clone()),
                            Err(id) => nodes.remove(id),
                        };
                        true
                    },
                    |s| Some(s.gets.load(SeqCst)),
                    race,
                    obs,
                )
            }
        }
    }
}
