//! Programs over a schema, run both by the real code and by an independent model.
//!
//! A program is a list of top-level steps on one schema: transactions (with nested bodies,
//! simultaneously open siblings, save/delete operations, trigger runs and panics), direct graph
//! accesses and abandoned transactions. The schema is built from a list of registrations
//! (resources, hooks, plugins). Both interpreters produce a log of everything observable; the
//! property holds on a case when both logs are equal.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe},
    rc::Rc,
};

use plotline::{
    deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut},
    graph::{Graph, Source},
    id::Identify,
    prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave},
    schema::{
        ops::{delete::Delete, save::Save},
        plugin::Plugin,
        resource::Res,
        transaction::{Context, Ctx, Foreground, Target, Transaction},
        trigger::Trigger,
        Error, Result, Schema,
    },
};
use serde::{Deserialize, Serialize};

pub type Id = u16;

thread_local! {
    /// Makes the next clone of a node panic.
    static CLONE_BOMB: Cell<bool> = const { Cell::new(false) };
}

#[derive(Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Node {
    pub id: Id,
    pub val: u32,
}

impl Clone for Node {
    fn clone(&self) -> Self {
        if CLONE_BOMB.with(|b| b.replace(false)) {
            panic_any(CloneBomb);
        }
        Node {
            id: self.id,
            val: self.val,
        }
    }
}

impl Identify for Node {
    type Id = Id;

    fn id(&self) -> &Id {
        &self.id
    }
}

struct CloneBomb;

/// A panic raised by a program.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Boom(u32);

const MESSAGES: [&str; 16] = [
    "boom 0", "boom 1", "boom 2", "boom 3", "boom 4", "boom 5", "boom 6", "boom 7", "boom 8", "boom 9", "boom 10",
    "boom 11", "boom 12", "boom 13", "boom 14", "boom 15",
];

/// Panics with a payload that depends on the number: a value of a type of its own, a formatted message or a static
/// one.
fn boom(k: u32) -> ! {
    match (k % 3, MESSAGES.get(k as usize)) {
        (1, _) => panic_any(format!("boom {k}")),
        (2, Some(message)) => panic_any(*message),
        _ => panic_any(Boom(k)),
    }
}

/// The number a program panicked with, if that is what the payload comes from.
fn boomed(payload: &(dyn std::any::Any + Send)) -> Option<u32> {
    let number = |message: &str| message.strip_prefix("boom ")?.parse().ok();
    if let Some(Boom(k)) = payload.downcast_ref() {
        Some(*k)
    } else if let Some(message) = payload.downcast_ref::<String>() {
        number(message)
    } else {
        number(payload.downcast_ref::<&'static str>()?)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum End {
    Ok(u32),
    Fail(String),
    Noop,
    Panic(u32),
    /// Success, the context never being dropped.
    Forget(u32),
}

/// What the parent does with the outcome of something it runs.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct On {
    /// Errors are ignored instead of being returned.
    pub swallow: bool,
    /// Panics are caught instead of unwinding further.
    pub contain: bool,
}

/// A write done, in a transaction of its own on the enclosing level, by a destructor that runs when
/// the body has been left, in whatever way: also while unwinding.
pub type Cleanup = Option<(Id, Option<u32>)>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Act {
    Save { id: Id, val: u32 },
    Delete { id: Id },
    /// Many writes in a row, see [`burst`].
    Burst { first: Id, step: u8, n: u16, val: u32 },
    /// A raw write into a context `up` levels above, while this one is open.
    Outer { up: u8, id: Id, val: Option<u32> },
    Sub {
        body: Vec<Act>,
        end: End,
        on: On,
        #[serde(default)]
        cleanup: Cleanup,
    },
    /// Nested transactions that are open at the same time. `steps` run in the sibling given, or in
    /// the parent for the index equal to `n`; `ends` says in which order, and how, they end. The
    /// ones not mentioned are abandoned.
    Siblings { n: u8, steps: Vec<(u8, Act)>, ends: Vec<(u8, End)> },
    OpSave { id: Id, val: u32, on: On },
    OpDelete { id: Id, on: On },
    /// Runs a schedule's triggers in a nested transaction.
    Run { sched: u8, on: On },
    /// A lookup during which cloning the node panics; the panic is contained right away.
    BadLookup { id: Id },
    Panic(u32),
}

/// The writes of an [`Act::Burst`].
pub fn burst(first: Id, step: u8, n: u16, val: u32) -> impl Iterator<Item = (Id, Option<u32>)> {
    (0..n).map(move |i| {
        let id = first.wrapping_add(i.wrapping_mul(u16::from(step))) % 60_000;
        let val = val.wrapping_add(u32::from(i));
        (id, (val % 6 != 0).then_some(val))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum HAct {
    MutTarget { val: Option<u32>, id: Option<Id> },
    /// Keeps the target for later, also for after the operation it belongs to.
    Keep,
    /// Looks at one of the targets kept so far and changes it.
    MutKept { which: u8, val: Option<u32>, id: Option<Id> },
    Bump { res: u8, by: u32 },
    Sub { body: Vec<Act>, end: End, on: On },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Hook {
    /// Index in [`SCHEDULES`].
    pub sched: u8,
    /// Number of parameters besides the context.
    pub arity: u8,
    /// Acts only when the target has this identifier; observes always.
    pub only: Option<Id>,
    pub acts: Vec<HAct>,
    pub end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Reg {
    Res(u8, u32),
    Hook(Hook),
    Plugin(Vec<Reg>),
    /// A plugin without state of its own, see [`plain`].
    Plain(u8),
}

/// What a plugin without state registers.
fn plain(which: u8) -> Vec<Reg> {
    let hook = |sched, arity| {
        Reg::Hook(Hook {
            sched,
            arity,
            only: None,
            acts: Vec::new(),
            end: End::Ok(0),
        })
    };
    match which % 3 {
        0 => vec![hook(0, 1)],
        1 => vec![hook(2, 2), Reg::Res(1, 77)],
        _ => vec![Reg::Plain(0), hook(4, 0), Reg::Plain(1)],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Step {
    Tx {
        body: Vec<Act>,
        end: End,
        #[serde(default)]
        cleanup: Cleanup,
    },
    /// A transaction object first used through separate contexts, then run (or dropped).
    Pre { first: Vec<Act>, second: Vec<Act>, run: Option<(Vec<Act>, End)> },
    /// Several transaction objects created up front and run one after another (or dropped).
    Batch(Vec<Option<(Vec<Act>, End)>>),
    Direct(Vec<(Id, Option<u32>)>),
    OpSave { id: Id, val: u32 },
    OpDelete { id: Id },
    Run { sched: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    pub init: Vec<(Id, u32)>,
    pub build: Vec<Reg>,
    pub steps: Vec<Step>,
    /// How much deeper than usual hooks may lead to further hooks.
    #[serde(default)]
    pub deep: u8,
}

impl Case {
    fn hook_depth(&self) -> u32 {
        MAX_HOOK_DEPTH + u32::from(self.deep)
    }

    /// Whether another schema is used by turns.
    fn two(&self) -> bool {
        (self.init.len() + self.build.len() + self.steps.len()) % 6 == 1
    }

    fn hook_fuel(&self) -> u32 {
        HOOK_FUEL + 3 * u32::from(self.deep)
    }
}

pub const N_SCHED: u8 = 6;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SchedX;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SchedY;

pub const N_RES: u8 = 4;
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Counter<const K: usize>(pub u64);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
    Ok(u32),
    Noop,
    Msg(String),
    Panic(u32),
}

type Level = Vec<(Id, Option<u32>)>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    /// What every open context (innermost first) has under the observed identifiers.
    View(&'static str, Vec<Level>),
    Out(&'static str, Outcome),
    Hook {
        idx: usize,
        target: Option<(Id, u32)>,
        res: Vec<Option<u64>>,
        view: Level,
    },
    Graph(Vec<(Id, u32)>),
    Resources(Vec<Option<u64>>),
    /// What a kept target has.
    Kept(Option<(Id, u32)>),
    /// Lookups that should agree with each other do not.
    Incoherent(String),
}

const MAX_HOOK_DEPTH: u32 = 3;
const HOOK_FUEL: u32 = 60;
const MAX_KEPT: usize = 4;

/// Every identifier the case mentions, and one it does not.
fn all_ids(case: &Case) -> Vec<Id> {
    fn acts(a: &[Act], ids: &mut BTreeSet<Id>) {
        for act in a {
            match act {
                Act::Save { id, .. }
                | Act::Delete { id }
                | Act::Outer { id, .. }
                | Act::OpSave { id, .. }
                | Act::OpDelete { id, .. }
                | Act::BadLookup { id } => {
                    ids.insert(*id);
                }
                Act::Burst { first, step, n, val } => {
                    let all: Vec<_> = burst(*first, *step, *n, *val).collect();
                    for i in [0, all.len() / 3, all.len() - 1] {
                        ids.insert(all[i].0);
                    }
                }
                Act::Sub { body, cleanup, .. } => {
                    ids.extend(cleanup.map(|(id, _)| id));
                    acts(body, ids);
                }
                Act::Siblings { steps, .. } => {
                    for (_, act) in steps {
                        acts(std::slice::from_ref(act), ids);
                    }
                }
                Act::Run { .. } | Act::Panic(_) => {}
            }
        }
    }
    fn regs(r: &[Reg], ids: &mut BTreeSet<Id>) {
        for reg in r {
            match reg {
                Reg::Res(..) | Reg::Plain(_) => {}
                Reg::Plugin(r) => regs(r, ids),
                Reg::Hook(h) => {
                    for act in &h.acts {
                        match act {
                            HAct::MutTarget { id: Some(id), .. } | HAct::MutKept { id: Some(id), .. } => {
                                ids.insert(*id);
                            }
                            HAct::Sub { body, .. } => acts(body, ids),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    let mut ids = BTreeSet::new();
    ids.extend(case.init.iter().map(|(id, _)| *id));
    regs(&case.build, &mut ids);
    for step in &case.steps {
        match step {
            Step::Tx { body, cleanup, .. } => {
                ids.extend(cleanup.map(|(id, _)| id));
                acts(body, &mut ids);
            }
            Step::Pre { first, second, run } => {
                acts(first, &mut ids);
                acts(second, &mut ids);
                if let Some((body, _)) = run {
                    acts(body, &mut ids);
                }
            }
            Step::Batch(txs) => {
                for (body, _) in txs.iter().flatten() {
                    acts(body, &mut ids);
                }
            }
            Step::Direct(ops) => ids.extend(ops.iter().map(|(id, _)| *id)),
            Step::OpSave { id, .. } | Step::OpDelete { id } => {
                ids.insert(*id);
            }
            Step::Run { .. } => {}
        }
    }
    let absent = ids.iter().next_back().map_or(0, |id| id + 1);
    ids.insert(absent);
    ids.into_iter().collect()
}

/// Identifiers looked at after a single write.
fn narrow(ids: &[Id], touched: Id) -> Vec<Id> {
    if ids.len() <= 8 {
        return ids.to_vec();
    }
    let mut v = vec![touched, ids[usize::from(touched) % ids.len()], ids[ids.len() - 1]];
    v.dedup();
    v
}

pub fn flatten(regs: &[Reg]) -> Vec<Reg> {
    regs.iter()
        .flat_map(|r| match r {
            Reg::Plugin(inner) => flatten(inner),
            Reg::Plain(which) => flatten(&plain(*which)),
            other => vec![other.clone()],
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Real interpreter
// ---------------------------------------------------------------------------------------------

struct Env {
    log: RefCell<Vec<Ev>>,
    ids: Vec<Id>,
    depth: Cell<u32>,
    max_depth: u32,
    fuel: Cell<u32>,
    ticks: Cell<u64>,
    bombs: [Option<u64>; 2],
    next_hook: Cell<usize>,
    kept: RefCell<Vec<Target<Node>>>,
    other: Option<RefCell<Other>>,
}

/// A schema besides the one of the program, with nodes of the same identities, hooks on the same
/// schedules and resources of the same types, that is used by turns with it.
struct Other {
    schema: Schema<Node>,
    nodes: BTreeMap<Id, u32>,
    saves: u64,
    seen: Rc<Cell<(u64, u32)>>,
}

impl Other {
    fn new() -> Other {
        let seen = Rc::new(Cell::new((0, 0)));
        let out = seen.clone();
        let schema = Schema::from(Graph::default())
            .with_resource(Counter::<0>(0))
            .with_trigger(AfterSave, move |_: Ctx<'_, Node>, t: Target<Node>, r: R0| {
                let n = r.with_mut(|r: &mut Counter<0>| {
                    r.0 += 1;
                    r.0
                });
                out.set((n.unwrap_or(u64::MAX), t.with(|n: &Node| n.val).unwrap_or(u32::MAX)));
                Ok(())
            });
        Other {
            schema,
            nodes: BTreeMap::new(),
            saves: 0,
            seen,
        }
    }

    /// One transaction, the kind of which depends on the number; what is wrong, if anything.
    fn turn(&mut self, n: u64, ids: &[Id]) -> Option<String> {
        let id = *ids.get(n as usize % ids.len().max(1))?;
        let val = 50_000 + n as u32;
        let kind = n % 7;
        let got = self.schema.transaction().with(|c| {
            let before: Vec<_> = ids.iter().map(|id| c.get(id).map(|n| n.val)).collect();
            match kind {
                1 | 4 => c.save(Node { id, val }),
                2 => c.delete(id),
                3 | 5 => {
                    Save::new(Node { id, val }).execute(c.transaction())?;
                }
                _ => {}
            }
            let after = c.get(&id).map(|n| n.val);
            if kind == 4 {
                return Err(Error::custom(format!("{before:?} {after:?}")));
            }
            Ok(format!("{before:?} {after:?}"))
        });
        let before: Vec<_> = ids.iter().map(|id| self.nodes.get(id).copied()).collect();
        let after = match kind {
            1 | 3..=5 => Some(val),
            2 => None,
            _ => self.nodes.get(&id).copied(),
        };
        match after {
            _ if kind == 4 => None,
            Some(val) => self.nodes.insert(id, val),
            None => self.nodes.remove(&id),
        };
        let want = format!("{before:?} {after:?}");
        let as_told = match &got {
            Ok(got) => kind != 4 && *got == want,
            Err(e) => kind == 4 && e.to_string() == want,
        };
        if kind == 3 || kind == 5 {
            self.saves += 1;
            if self.seen.get() != (self.saves, val) {
                return Some(format!("other schema, turn {n}: trigger: {:?}, want {:?}", self.seen.get(), (self.saves, val)));
            }
        }
        let nodes: BTreeMap<_, _> = self.schema.read().into_iter().map(|n| (n.id, n.val)).collect();
        (!as_told || nodes != self.nodes)
            .then(|| format!("other schema, turn {n}: {got:?}, want {want}; {nodes:?}, want {:?}", self.nodes))
    }
}

type C<'a> = Context<'a, Node>;

#[derive(Clone, Copy)]
struct Chain<'c> {
    ctx: &'c C<'c>,
    up: Option<&'c Chain<'c>>,
}

impl Env {
    fn push(&self, ev: Ev) {
        self.log.borrow_mut().push(ev);
    }

    fn tick(&self) {
        let n = self.ticks.get();
        self.ticks.set(n + 1);
        crate::runner::meanwhile();
        if let Some(wrong) = self.other.as_ref().and_then(|o| o.borrow_mut().turn(n, &self.ids)) {
            self.push(Ev::Incoherent(wrong));
        }
        if self.bombs.contains(&Some(n)) {
            boom(u32::MAX);
        }
    }

    fn level(&self, ctx: &C<'_>, ids: &[Id]) -> Level {
        ids.iter()
            .map(|id| {
                let got = ctx.get(id);
                let contains = ctx.contains(id);
                let handle = ctx.node(*id);
                let virt = handle.is_virtual();
                let via = handle.try_deref().map(|n| (n.id, n.val));
                let plain = got.as_ref().map(|n| (n.id, n.val));
                if contains != got.is_some()
                    || virt == contains
                    || via != plain
                    || plain.is_some_and(|(i, _)| i != *id)
                {
                    self.push(Ev::Incoherent(format!(
                        "id {id}: get {plain:?}, contains {contains}, handle {via:?}, virtual {virt}"
                    )));
                }
                (*id, got.map(|n| n.val))
            })
            .collect()
    }

    fn view(&self, what: &'static str, chain: &Chain<'_>, ids: &[Id]) {
        let mut levels = Vec::new();
        let mut cur = Some(chain);
        while let Some(c) = cur {
            levels.push(self.level(c.ctx, ids));
            cur = c.up;
        }
        self.push(Ev::View(what, levels));
    }

    fn full(&self, what: &'static str, chain: &Chain<'_>) {
        self.view(what, chain, &self.ids);
    }
}

/// Leaves a body the way given.
fn leave(ctx: C<'_>, end: &End) -> Result<u32> {
    if let End::Forget(_) = end {
        std::mem::forget(ctx);
    }
    finish(end)
}

fn finish(end: &End) -> Result<u32> {
    match end {
        End::Ok(v) | End::Forget(v) => Ok(*v),
        End::Fail(m) => Err(Error::custom(m)),
        End::Noop => Err(Error::Noop),
        End::Panic(k) => boom(*k),
    }
}

fn outcome_of(r: &Result<u32>) -> Outcome {
    match r {
        Ok(v) => Outcome::Ok(*v),
        Err(Error::Noop) => Outcome::Noop,
        Err(Error::Msg(m)) => Outcome::Msg(m.clone()),
    }
}

/// Runs something, logs how it went and hands on what is to be handed on.
fn settle(env: &Env, what: &'static str, on: On, f: impl FnOnce() -> Result<u32>) -> Result<()> {
    let depth = env.depth.get();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => {
            env.push(Ev::Out(what, outcome_of(&r)));
            match r {
                Err(e) if !on.swallow => Err(e),
                _ => Ok(()),
            }
        }
        Err(payload) => {
            env.depth.set(depth);
            let Some(k) = boomed(payload.as_ref()) else {
                resume_unwind(payload);
            };
            env.push(Ev::Out(what, Outcome::Panic(k)));
            if on.contain {
                Ok(())
            } else {
                resume_unwind(payload);
            }
        }
    }
}

struct OnLeave<F: FnMut()>(F);

impl<F: FnMut()> Drop for OnLeave<F> {
    fn drop(&mut self) {
        (self.0)();
    }
}

/// Runs the cleanup in the given transaction.
fn clean(env: &Env, up: Option<&Chain<'_>>, tx: impl FnOnce(&dyn Fn(C<'_>)), (id, val): (Id, Option<u32>)) {
    tx(&|c| {
        let chain = Chain { ctx: &c, up };
        env.full("cleanup start", &chain);
        match val {
            Some(val) => c.save(Node { id, val }),
            None => c.delete(id),
        }
        env.full("cleanup end", &chain);
    });
}

const CONTAIN: On = On {
    swallow: true,
    contain: true,
};

fn exec_all(env: &Env, chain: &Chain<'_>, acts: &[Act]) -> Result<()> {
    acts.iter().try_for_each(|act| exec(env, chain, act))
}

fn exec(env: &Env, chain: &Chain<'_>, act: &Act) -> Result<()> {
    env.tick();
    match act {
        Act::Save { id, val } => {
            chain.ctx.save(Node { id: *id, val: *val });
            env.view("save", chain, &narrow(&env.ids, *id));
        }
        Act::Delete { id } => {
            chain.ctx.delete(*id);
            env.view("delete", chain, &narrow(&env.ids, *id));
        }
        Act::Burst { first, step, n, val } => {
            for (id, val) in burst(*first, *step, *n, *val) {
                match val {
                    Some(val) => chain.ctx.save(Node { id, val }),
                    None => chain.ctx.delete(id),
                }
            }
            env.full("burst", chain);
        }
        Act::Outer { up, id, val } => {
            let mut cur = chain;
            for _ in 0..*up {
                cur = cur.up.unwrap_or(cur);
            }
            match val {
                Some(val) => cur.ctx.save(Node { id: *id, val: *val }),
                None => cur.ctx.delete(*id),
            }
            env.view("outer", chain, &narrow(&env.ids, *id));
        }
        Act::Sub {
            body,
            end,
            on,
            cleanup,
        } => {
            let r = settle(env, "sub", *on, || {
                let _cleanup = cleanup.map(|write| {
                    OnLeave(move || {
                        let run = |body: &dyn Fn(C<'_>)| {
                            let r: Result<()> = chain.ctx.transaction().with(|c| {
                                body(c);
                                Ok(())
                            });
                            env.push(Ev::Out("cleanup", outcome_of(&r.map(|()| 0))));
                        };
                        clean(env, Some(chain), run, write);
                    })
                });
                chain.ctx.transaction().with(|c| {
                    let chain = Chain {
                        ctx: &c,
                        up: Some(chain),
                    };
                    env.full("sub start", &chain);
                    exec_all(env, &chain, body)?;
                    env.tick();
                    env.full("sub end", &chain);
                    leave(c, end)
                })
            });
            env.full("after sub", chain);
            r?;
        }
        Act::Siblings { n, steps, ends } => {
            let n = usize::from(*n).max(1);
            let txs: Vec<Foreground<'_, Node>> = (0..n).map(|_| chain.ctx.transaction()).collect();
            {
                let ctxs: Vec<C<'_>> = txs.iter().map(Context::from).collect();
                for (which, act) in steps {
                    match ctxs.get(usize::from(*which) % (n + 1)) {
                        Some(ctx) => exec(env, &Chain { ctx, up: Some(chain) }, act)?,
                        None => exec(env, chain, act)?,
                    }
                    for ctx in &ctxs {
                        let level = env.level(ctx, &env.ids);
                        env.push(Ev::View("sibling", vec![level]));
                    }
                }
            }
            let mut txs: Vec<_> = txs.into_iter().map(Some).collect();
            for (which, end) in ends {
                let Some(tx) = txs[usize::from(*which) % n].take() else {
                    continue;
                };
                settle(env, "sibling end", CONTAIN, || {
                    tx.with(|c| {
                        env.full("sibling end", &Chain { ctx: &c, up: Some(chain) });
                        env.tick();
                        leave(c, end)
                    })
                })?;
                env.full("after sibling", chain);
            }
            drop(txs);
            env.full("after siblings", chain);
        }
        Act::OpSave { id, val, on } => {
            let node = Node { id: *id, val: *val };
            let r = settle(env, "op save", *on, || {
                Save::new(node).execute(chain.ctx.transaction()).map(|_| 0)
            });
            env.full("after op save", chain);
            r?;
        }
        Act::OpDelete { id, on } => {
            let r = settle(env, "op delete", *on, || {
                Delete::new(*id).execute(chain.ctx.transaction()).map(|_| 0)
            });
            env.full("after op delete", chain);
            r?;
        }
        Act::Run { sched, on } => {
            let r = settle(env, "run", *on, || {
                chain.ctx.transaction().with(|c| {
                    run_schedule(&c, *sched)?;
                    env.full("run end", &Chain { ctx: &c, up: Some(chain) });
                    Ok(0)
                })
            });
            env.full("after run", chain);
            r?;
        }
        Act::BadLookup { id } => {
            CLONE_BOMB.with(|b| b.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| chain.ctx.get(id)));
            CLONE_BOMB.with(|b| b.set(false));
            if let Err(p) = r {
                if !p.is::<CloneBomb>() {
                    resume_unwind(p);
                }
            }
            env.full("after bad lookup", chain);
        }
        Act::Panic(k) => boom(*k),
    }
    Ok(())
}

fn run_schedule(c: &C<'_>, sched: u8) -> Result<()> {
    match sched % N_SCHED {
        0 => c.triggers().select(BeforeSave).execute(c),
        1 => c.triggers().select(AfterSave).execute(c),
        2 => c.triggers().select(BeforeDelete).execute(c),
        3 => c.triggers().select(AfterDelete).execute(c),
        4 => c.triggers().select(SchedX).execute(c),
        _ => c.triggers().select(SchedY).execute(c),
    }
}

trait DynRes {
    fn value(&self) -> Option<u64>;
    fn bump(&self, by: u32);
}

impl<const K: usize> DynRes for Res<Counter<K>> {
    fn value(&self) -> Option<u64> {
        self.with(|c| c.0)
    }

    fn bump(&self, by: u32) {
        self.with_mut(|c| c.0 += u64::from(by));
    }
}

fn run_hook(
    env: &Env,
    idx: usize,
    hook: &Hook,
    ctx: Ctx<'_, Node>,
    target: Option<Target<Node>>,
    res: Vec<Box<dyn DynRes>>,
) -> Result<()> {
    if env.fuel.get() == 0 {
        return Ok(());
    }
    env.fuel.set(env.fuel.get() - 1);
    env.tick();

    let seen = target
        .as_ref()
        .and_then(|t| t.with(|n: &Node| (n.id, n.val)));
    if let Some(t) = &target {
        // There are other ways to it.
        let of = |n: &Node| (n.id, n.val);
        // One at a time, none held for longer than it takes.
        let ways: [&dyn Fn() -> Option<(u16, u32)>; 5] = [
            &|| {
                let guard = t.read();
                guard.try_deref().map(of)
            },
            &|| {
                let guard = t.write();
                guard.try_deref().map(of)
            },
            &|| {
                let mut guard = t.write();
                guard.try_deref_mut().map(|n| of(n))
            },
            &|| t.with_mut(|n: &mut Node| of(n)),
            &|| {
                let copy = t.clone();
                let guards = (t.read(), copy.read());
                guards.0.try_deref().and(guards.1.try_deref()).map(of)
            },
        ];
        let ways = ways.map(|way| way());
        if let Some(way) = ways.iter().position(|way| *way != seen) {
            env.push(Ev::Incoherent(format!(
                "the target is {seen:?}, by way {way} {:?}",
                ways[way]
            )));
        }
    }
    let mut level = None;
    let looked = ctx.transaction().with(|c| {
        level = Some(env.level(&c, &env.ids));
        if c.target().with(|_: &Node| ()).is_some() {
            env.push(Ev::Incoherent("a fresh nested context has a target".into()));
        }
        Result::<u32>::Err(Error::Noop)
    });
    if !matches!(looked, Err(Error::Noop)) {
        env.push(Ev::Incoherent("failing nested body did not fail".into()));
    }
    env.push(Ev::Hook {
        idx,
        target: seen,
        res: res.iter().map(|r| r.value()).collect(),
        view: level.unwrap_or_default(),
    });

    if env.depth.get() >= env.max_depth {
        return Ok(());
    }
    if hook.only.is_some() && hook.only != seen.map(|(id, _)| id) {
        return Ok(());
    }

    env.depth.set(env.depth.get() + 1);
    let r = hook_acts(env, hook, &ctx, target.as_ref(), &res);
    env.depth.set(env.depth.get() - 1);
    r
}

fn hook_acts(
    env: &Env,
    hook: &Hook,
    ctx: &Ctx<'_, Node>,
    target: Option<&Target<Node>>,
    res: &[Box<dyn DynRes>],
) -> Result<()> {
    for act in &hook.acts {
        env.tick();
        match act {
            HAct::MutTarget { val, id } => {
                if let Some(t) = target {
                    let set = |n: &mut Node| {
                        n.val = val.unwrap_or(n.val);
                        n.id = id.unwrap_or(n.id);
                    };
                    if val.is_some_and(|val| val % 2 == 1) {
                        t.write().try_deref_mut().map(set);
                    } else {
                        t.with_mut(set);
                    }
                }
            }
            HAct::Keep => {
                let mut kept = env.kept.borrow_mut();
                if let (Some(t), true) = (target, kept.len() < MAX_KEPT) {
                    // There may be no target to keep.
                    kept.extend(t.with(|_: &Node| t.clone()));
                }
            }
            HAct::MutKept { which, val, id } => {
                let kept = env.kept.borrow();
                if let Some(t) = kept.get(usize::from(*which) % kept.len().max(1)) {
                    env.push(Ev::Kept(t.with(|n: &Node| (n.id, n.val))));
                    t.with_mut(|n: &mut Node| {
                        n.val = val.unwrap_or(n.val);
                        n.id = id.unwrap_or(n.id);
                    });
                }
            }
            HAct::Bump { res: i, by } => {
                if let Some(r) = res.get(usize::from(*i)) {
                    r.bump(*by);
                }
            }
            HAct::Sub { body, end, on } => settle(env, "hook sub", *on, || {
                ctx.transaction().with(|c| {
                    let chain = Chain { ctx: &c, up: None };
                    exec_all(env, &chain, body)?;
                    env.full("hook sub end", &chain);
                    leave(c, end)
                })
            })?,
        }
    }
    finish(&hook.end).map(|_| ())
}

macro_rules! boxed {
    ($($r:expr),*) => {{ let v: Vec<Box<dyn DynRes>> = vec![$(Box::new($r)),*]; v }};
}

type T = Target<Node>;
type R0 = Res<Counter<0>>;
type R1 = Res<Counter<1>>;
type R2 = Res<Counter<2>>;
type R3 = Res<Counter<3>>;

/// Which resources a hook of the given arity receives, in order, and whether it gets the target.
fn hook_shape(arity: u8) -> (bool, &'static [usize]) {
    match arity {
        0 => (false, &[]),
        1 => (true, &[]),
        2 => (true, &[0]),
        3 => (true, &[0, 1]),
        4 => (true, &[2, 1, 0]),
        5 => (true, &[0, 1, 2, 3]),
        6 => (true, &[3, 1, 2, 0]),
        7 => (true, &[0, 0, 1, 2, 3]),
        _ => (true, &[0, 1, 2, 3, 1]),
    }
}

fn add_hook<S: 'static>(env: &Rc<Env>, schema: Schema<Node>, sched: S, hook: &Hook) -> Schema<Node> {
    let idx = env.next_hook.get();
    env.next_hook.set(idx + 1);
    let (env, hook) = (env.clone(), hook.clone());
    match hook.arity {
        0 => schema.with_trigger(sched, move |c: Ctx<'_, Node>| {
            run_hook(&env, idx, &hook, c, None, boxed![])
        }),
        1 => schema.with_trigger(sched, move |c: Ctx<'_, Node>, t: T| {
            run_hook(&env, idx, &hook, c, Some(t), boxed![])
        }),
        2 => schema.with_trigger(sched, move |c: Ctx<'_, Node>, t: T, a: R0| {
            run_hook(&env, idx, &hook, c, Some(t), boxed![a])
        }),
        3 => schema.with_trigger(sched, move |c: Ctx<'_, Node>, a: R0, t: T, b: R1| {
            run_hook(&env, idx, &hook, c, Some(t), boxed![a, b])
        }),
        4 => schema.with_trigger(sched, move |c: Ctx<'_, Node>, a: R2, b: R1, d: R0, t: T| {
            run_hook(&env, idx, &hook, c, Some(t), boxed![a, b, d])
        }),
        5 => schema.with_trigger(
            sched,
            move |c: Ctx<'_, Node>, a: R0, b: R1, d: R2, e: R3, t: T| {
                run_hook(&env, idx, &hook, c, Some(t), boxed![a, b, d, e])
            },
        ),
        6 => schema.with_trigger(
            sched,
            move |c: Ctx<'_, Node>, a: R3, b: R1, d: R2, e: R0, _: T, t: T| {
                run_hook(&env, idx, &hook, c, Some(t), boxed![a, b, d, e])
            },
        ),
        7 => schema.with_trigger(
            sched,
            move |c: Ctx<'_, Node>, a: R0, t: T, a2: R0, b: R1, d: R2, e: R3, _: T| {
                run_hook(&env, idx, &hook, c, Some(t), boxed![a, a2, b, d, e])
            },
        ),
        _ => schema.with_trigger(
            sched,
            move |c: Ctx<'_, Node>, _: T, a: R0, b: R1, d: R2, e: R3, f: R1, _: T, t: T| {
                run_hook(&env, idx, &hook, c, Some(t), boxed![a, b, d, e, f])
            },
        ),
    }
}

struct RegPlugin {
    env: Rc<Env>,
    regs: Vec<Reg>,
}

impl Plugin<Node> for RegPlugin {
    fn install(self, schema: Schema<Node>) -> Schema<Node> {
        register(&self.env, schema, &self.regs)
    }
}

struct PlainPlugin<const K: u8>;

thread_local! {
    /// What plugins without state take from their surroundings.
    static SURROUNDINGS: RefCell<Option<Rc<Env>>> = const { RefCell::new(None) };
}

impl<const K: u8> Plugin<Node> for PlainPlugin<K> {
    fn install(self, schema: Schema<Node>) -> Schema<Node> {
        let env = SURROUNDINGS.with(|env| env.borrow().clone()).expect("set while registering");
        register(&env, schema, &plain(K))
    }
}

fn register(env: &Rc<Env>, mut schema: Schema<Node>, regs: &[Reg]) -> Schema<Node> {
    for reg in regs {
        schema = match reg {
            Reg::Res(k, v) => {
                let v = u64::from(*v);
                match k % N_RES {
                    0 => schema.with_resource(Counter::<0>(v)),
                    1 => schema.with_resource(Counter::<1>(v)),
                    2 => schema.with_resource(Counter::<2>(v)),
                    _ => schema.with_resource(Counter::<3>(v)),
                }
            }
            Reg::Hook(h) => match h.sched % N_SCHED {
                0 => add_hook(env, schema, BeforeSave, h),
                1 => add_hook(env, schema, AfterSave, h),
                2 => add_hook(env, schema, BeforeDelete, h),
                3 => add_hook(env, schema, AfterDelete, h),
                4 => add_hook(env, schema, SchedX, h),
                _ => add_hook(env, schema, SchedY, h),
            },
            Reg::Plugin(inner) => schema.install(RegPlugin {
                env: env.clone(),
                regs: inner.clone(),
            }),
            Reg::Plain(which) => {
                SURROUNDINGS.with(|s| *s.borrow_mut() = Some(env.clone()));
                let schema = match which % 3 {
                    0 => schema.install(PlainPlugin::<0>),
                    1 => schema.install(PlainPlugin::<1>),
                    _ => schema.install(PlainPlugin::<2>),
                };
                SURROUNDINGS.with(|s| *s.borrow_mut() = None);
                schema
            }
        };
    }
    schema
}

/// The panic point to hit, if any, and the log.
pub fn run_real(case: &Case, bombs: [Option<u64>; 2]) -> (Vec<Ev>, u64) {
    let env = Rc::new(Env {
        log: Default::default(),
        ids: all_ids(case),
        depth: Cell::new(0),
        max_depth: case.hook_depth(),
        fuel: Cell::new(case.hook_fuel()),
        ticks: Cell::new(0),
        kept: Default::default(),
        bombs,
        next_hook: Cell::new(0),
        other: case.two().then(|| RefCell::new(Other::new())),
    });

    let graph = Graph::from_iter(case.init.iter().map(|(id, val)| Node { id: *id, val: *val }));
    let schema = register(&env, Schema::from(graph), &case.build);

    let snapshot = |env: &Env| {
        let guard = schema.read();
        env.push(Ev::Graph(guard.into_iter().map(|n| (n.id, n.val)).collect()));
        for id in &env.ids {
            let via_get = guard.get(id).map(|n| n.val);
            let via_iter = guard.into_iter().find(|n| n.id == *id).map(|n| n.val);
            if via_get != via_iter || guard.contains(id) != via_get.is_some() {
                env.push(Ev::Incoherent(format!(
                    "graph id {id}: get {via_get:?}, iteration {via_iter:?}, contains {}",
                    guard.contains(id)
                )));
            }
        }
        drop(guard);
        let set = schema.resources();
        env.push(Ev::Resources(vec![
            R0::from(set).value(),
            R1::from(set).value(),
            R2::from(set).value(),
            R3::from(set).value(),
        ]));
    };

    snapshot(&env);
    let body = |c: C<'_>, acts: &[Act], end: &End| {
        let chain = Chain { ctx: &c, up: None };
        env.full("tx start", &chain);
        exec_all(&env, &chain, acts)?;
        env.tick();
        env.full("tx end", &chain);
        leave(c, end)
    };

    for step in &case.steps {
        env.depth.set(0);
        let _ = match step {
            Step::Tx {
                body: acts,
                end,
                cleanup,
            } => settle(&env, "tx", CONTAIN, || {
                let _cleanup = cleanup.map(|write| {
                    let (env, schema) = (&env, &schema);
                    OnLeave(move || {
                        let run = |body: &dyn Fn(C<'_>)| {
                            let r: Result<()> = schema.transaction().with(|c| {
                                body(c);
                                Ok(())
                            });
                            env.push(Ev::Out("cleanup", outcome_of(&r.map(|()| 0))));
                        };
                        clean(env, None, run, write);
                    })
                });
                schema.transaction().with(|c| body(c, acts, end))
            }),
            Step::Pre { first, second, run } => settle(&env, "pre", CONTAIN, || {
                let tx = schema.transaction();
                {
                    let a = Context::from(&tx);
                    let chain_a = Chain { ctx: &a, up: None };
                    let r = exec_all(&env, &chain_a, first);
                    env.push(Ev::Out("pre first", outcome_of(&r.map(|_| 0))));
                    let b = Context::from(&tx);
                    let chain_b = Chain { ctx: &b, up: None };
                    let r = exec_all(&env, &chain_b, second);
                    env.push(Ev::Out("pre second", outcome_of(&r.map(|_| 0))));
                    env.full("pre a", &chain_a);
                    env.full("pre b", &chain_b);
                }
                match run {
                    Some((acts, end)) => tx.with(|c| body(c, acts, end)),
                    None => {
                        drop(tx);
                        Ok(0)
                    }
                }
            }),
            Step::Batch(runs) => {
                let txs: Vec<_> = runs.iter().map(|_| schema.transaction()).collect();
                for (tx, run) in txs.into_iter().zip(runs) {
                    if let Some((acts, end)) = run {
                        let _ = settle(&env, "batch", CONTAIN, || tx.with(|c| body(c, acts, end)));
                        snapshot(&env);
                    }
                }
                Ok(())
            }
            Step::Direct(ops) => {
                let mut guard = schema.write();
                for (id, val) in ops {
                    match val {
                        Some(val) => guard.insert(Node { id: *id, val: *val }),
                        None => guard.remove(id),
                    };
                }
                Ok(())
            }
            Step::OpSave { id, val } => settle(&env, "top save", CONTAIN, || {
                Save::new(Node { id: *id, val: *val })
                    .execute(schema.transaction())
                    .map(|_| 0)
            }),
            Step::OpDelete { id } => settle(&env, "top delete", CONTAIN, || {
                Delete::new(*id).execute(schema.transaction()).map(|_| 0)
            }),
            Step::Run { sched } => settle(&env, "top run", CONTAIN, || {
                schema.transaction().with(|c| {
                    run_schedule(&c, *sched)?;
                    env.full("run end", &Chain { ctx: &c, up: None });
                    Ok(0)
                })
            }),
        };
        // What became of a target since then concerns nothing but the target.
        for t in env.kept.borrow().iter() {
            env.push(Ev::Kept(t.with(|n: &Node| (n.id, n.val))));
            t.with_mut(|n: &mut Node| n.val = n.val.wrapping_add(1000));
        }
        snapshot(&env);
    }

    let log = env.log.take();
    let ticks = env.ticks.get();
    (log, ticks)
}

// ---------------------------------------------------------------------------------------------
// Model
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
enum Flow {
    Noop,
    Msg(String),
    Panic(u32),
}

type MResult<T = ()> = std::result::Result<T, Flow>;

#[derive(Default)]
struct MLevel {
    parent: Option<usize>,
    pending: BTreeMap<Id, Option<u32>>,
}

struct Model {
    graph: BTreeMap<Id, u32>,
    levels: Vec<MLevel>,
    res: Vec<Option<u64>>,
    hooks: Vec<Hook>,
    log: Vec<Ev>,
    ids: Vec<Id>,
    depth: u32,
    max_depth: u32,
    fuel: u32,
    ticks: u64,
    bombs: [Option<u64>; 2],
    /// All the targets there have been.
    targets: Vec<(Id, u32)>,
    kept: Vec<usize>,
}

impl Model {
    fn tick(&mut self) -> MResult {
        let n = self.ticks;
        self.ticks += 1;
        if self.bombs.contains(&Some(n)) {
            return Err(Flow::Panic(u32::MAX));
        }
        Ok(())
    }

    fn open(&mut self, parent: Option<usize>) -> usize {
        self.levels.push(MLevel {
            parent,
            ..Default::default()
        });
        self.levels.len() - 1
    }

    fn lookup(&self, level: usize, id: Id) -> Option<u32> {
        let mut cur = Some(level);
        while let Some(l) = cur {
            if let Some(w) = self.levels[l].pending.get(&id) {
                return *w;
            }
            cur = self.levels[l].parent;
        }
        self.graph.get(&id).copied()
    }

    fn write(&mut self, level: usize, id: Id, val: Option<u32>) {
        self.levels[level].pending.insert(id, val);
    }

    /// Hands the pending writes of a level on to its parent or to the graph.
    fn merge(&mut self, level: usize) {
        let pending = std::mem::take(&mut self.levels[level].pending);
        match self.levels[level].parent {
            Some(parent) => self.levels[parent].pending.extend(pending),
            None => {
                for (id, val) in pending {
                    match val {
                        Some(val) => self.graph.insert(id, val),
                        None => self.graph.remove(&id),
                    };
                }
            }
        }
    }

    fn level_view(&self, level: usize, ids: &[Id]) -> Level {
        ids.iter().map(|id| (*id, self.lookup(level, *id))).collect()
    }

    fn view(&mut self, what: &'static str, chain: &[usize], ids: &[Id]) {
        let levels = chain.iter().map(|l| self.level_view(*l, ids)).collect();
        self.log.push(Ev::View(what, levels));
    }

    fn full(&mut self, what: &'static str, chain: &[usize]) {
        let ids = std::mem::take(&mut self.ids);
        self.view(what, chain, &ids);
        self.ids = ids;
    }

    fn narrowed(&mut self, what: &'static str, chain: &[usize], id: Id) {
        let ids = narrow(&self.ids, id);
        self.view(what, chain, &ids);
    }

    fn finish(end: &End) -> MResult<u32> {
        match end {
            End::Ok(v) | End::Forget(v) => Ok(*v),
            End::Fail(m) => Err(Flow::Msg(m.clone())),
            End::Noop => Err(Flow::Noop),
            End::Panic(k) => Err(Flow::Panic(*k)),
        }
    }

    fn outcome(r: &MResult<u32>) -> Outcome {
        match r {
            Ok(v) => Outcome::Ok(*v),
            Err(Flow::Noop) => Outcome::Noop,
            Err(Flow::Msg(m)) => Outcome::Msg(m.clone()),
            Err(Flow::Panic(k)) => Outcome::Panic(*k),
        }
    }

    fn settle(
        &mut self,
        what: &'static str,
        on: On,
        f: impl FnOnce(&mut Self) -> MResult<u32>,
    ) -> MResult {
        let depth = self.depth;
        let r = f(self);
        self.log.push(Ev::Out(what, Self::outcome(&r)));
        match r {
            Ok(_) => Ok(()),
            Err(Flow::Panic(k)) => {
                self.depth = depth;
                if on.contain {
                    Ok(())
                } else {
                    Err(Flow::Panic(k))
                }
            }
            Err(_) if on.swallow => Ok(()),
            Err(e) => Err(e),
        }
    }

    /// Runs a body in a new level that merges on success and vanishes otherwise.
    fn scoped(
        &mut self,
        parent: Option<usize>,
        f: impl FnOnce(&mut Self, usize) -> MResult<u32>,
    ) -> MResult<u32> {
        let level = self.open(parent);
        let r = f(self, level);
        if r.is_ok() {
            self.merge(level);
        }
        r
    }

    fn clean(&mut self, chain: &[usize], cleanup: Cleanup) {
        let Some((id, val)) = cleanup else {
            return;
        };
        let r = self.scoped(chain.first().copied(), |m, level| {
            let chain = Self::sub_chain(level, chain);
            m.full("cleanup start", &chain);
            m.write(level, id, val);
            m.full("cleanup end", &chain);
            Ok(0)
        });
        self.log.push(Ev::Out("cleanup", Self::outcome(&r)));
    }

    fn exec_all(&mut self, chain: &[usize], acts: &[Act]) -> MResult {
        acts.iter().try_for_each(|act| self.exec(chain, act))
    }

    fn sub_chain(level: usize, chain: &[usize]) -> Vec<usize> {
        let mut v = vec![level];
        v.extend(chain);
        v
    }

    fn exec(&mut self, chain: &[usize], act: &Act) -> MResult {
        self.tick()?;
        let here = chain[0];
        match act {
            Act::Save { id, val } => {
                self.write(here, *id, Some(*val));
                self.narrowed("save", chain, *id);
            }
            Act::Delete { id } => {
                self.write(here, *id, None);
                self.narrowed("delete", chain, *id);
            }
            Act::Burst { first, step, n, val } => {
                for (id, val) in burst(*first, *step, *n, *val) {
                    self.write(here, id, val);
                }
                self.full("burst", chain);
            }
            Act::Outer { up, id, val } => {
                let level = chain[usize::from(*up).min(chain.len() - 1)];
                self.write(level, *id, *val);
                self.narrowed("outer", chain, *id);
            }
            Act::Sub {
                body,
                end,
                on,
                cleanup,
            } => {
                let r = self.settle("sub", *on, |m| {
                    let r = m.scoped(Some(here), |m, level| {
                        let chain = Self::sub_chain(level, chain);
                        m.full("sub start", &chain);
                        m.exec_all(&chain, body)?;
                        m.tick()?;
                        m.full("sub end", &chain);
                        Self::finish(end)
                    });
                    m.clean(chain, *cleanup);
                    r
                });
                if !matches!(r, Err(Flow::Panic(_))) {
                    self.full("after sub", chain);
                }
                r?;
            }
            Act::Siblings { n, steps, ends } => {
                let n = usize::from(*n).max(1);
                let levels: Vec<usize> = (0..n).map(|_| self.open(Some(here))).collect();
                for (which, act) in steps {
                    match levels.get(usize::from(*which) % (n + 1)) {
                        Some(level) => {
                            let chain = Self::sub_chain(*level, chain);
                            self.exec(&chain, act)?;
                        }
                        None => self.exec(chain, act)?,
                    }
                    for level in &levels {
                        let view = self.level_view(*level, &self.ids);
                        self.log.push(Ev::View("sibling", vec![view]));
                    }
                }
                let mut open: Vec<_> = levels.into_iter().map(Some).collect();
                for (which, end) in ends {
                    let Some(level) = open[usize::from(*which) % n].take() else {
                        continue;
                    };
                    self.settle("sibling end", CONTAIN, |m| {
                        m.full("sibling end", &Self::sub_chain(level, chain));
                        m.tick()?;
                        let r = Self::finish(end);
                        if r.is_ok() {
                            m.merge(level);
                        }
                        r
                    })?;
                    self.full("after sibling", chain);
                }
                self.full("after siblings", chain);
            }
            Act::OpSave { id, val, on } => {
                let r = self.settle("op save", *on, |m| m.op_save(Some(here), *id, *val));
                if !matches!(r, Err(Flow::Panic(_))) {
                    self.full("after op save", chain);
                }
                r?;
            }
            Act::OpDelete { id, on } => {
                let r = self.settle("op delete", *on, |m| m.op_delete(Some(here), *id));
                if !matches!(r, Err(Flow::Panic(_))) {
                    self.full("after op delete", chain);
                }
                r?;
            }
            Act::Run { sched, on } => {
                let r = self.settle("run", *on, |m| {
                    m.scoped(Some(here), |m, level| {
                        m.fire(*sched % N_SCHED, level, None)?;
                        m.full("run end", &Self::sub_chain(level, chain));
                        Ok(0)
                    })
                });
                if !matches!(r, Err(Flow::Panic(_))) {
                    self.full("after run", chain);
                }
                r?;
            }
            Act::BadLookup { .. } => self.full("after bad lookup", chain),
            Act::Panic(k) => return Err(Flow::Panic(*k)),
        }
        Ok(())
    }

    fn op_save(&mut self, parent: Option<usize>, id: Id, val: u32) -> MResult<u32> {
        self.scoped(parent, |m, level| {
            let target = m.target(id, val);
            m.fire(0, level, Some(target))?;
            let (id, val) = m.targets[target];
            m.write(level, id, Some(val));
            m.fire(1, level, Some(target))?;
            Ok(0)
        })
    }

    fn op_delete(&mut self, parent: Option<usize>, id: Id) -> MResult<u32> {
        self.scoped(parent, |m, level| {
            let Some(val) = m.lookup(level, id) else {
                return Err(Flow::Noop);
            };
            let target = m.target(id, val);
            m.fire(2, level, Some(target))?;
            m.write(level, id, None);
            m.fire(3, level, Some(target))?;
            Ok(0)
        })
    }

    fn target(&mut self, id: Id, val: u32) -> usize {
        self.targets.push((id, val));
        self.targets.len() - 1
    }

    fn fire(&mut self, sched: u8, level: usize, target: Option<usize>) -> MResult {
        for idx in 0..self.hooks.len() {
            if self.hooks[idx].sched % N_SCHED == sched {
                self.run_hook(idx, level, target)?;
            }
        }
        Ok(())
    }

    fn run_hook(&mut self, idx: usize, level: usize, target: Option<usize>) -> MResult {
        if self.fuel == 0 {
            return Ok(());
        }
        self.fuel -= 1;
        self.tick()?;

        let hook = self.hooks[idx].clone();
        let (has_target, shape) = hook_shape(hook.arity);
        let target = target.filter(|_| has_target);
        let seen = target.map(|t| self.targets[t]);
        let view = self.level_view(level, &self.ids);
        let res = shape.iter().map(|k| self.res[*k]).collect();
        self.log.push(Ev::Hook {
            idx,
            target: seen,
            res,
            view,
        });

        if self.depth >= self.max_depth {
            return Ok(());
        }
        if hook.only.is_some() && hook.only != seen.map(|(id, _)| id) {
            return Ok(());
        }

        self.depth += 1;
        let r = self.hook_acts(&hook, level, shape, target);
        self.depth -= 1;
        r
    }

    fn hook_acts(
        &mut self,
        hook: &Hook,
        level: usize,
        shape: &[usize],
        target: Option<usize>,
    ) -> MResult {
        for act in &hook.acts {
            self.tick()?;
            match act {
                HAct::MutTarget { val, id } => {
                    if let Some(t) = target.map(|t| &mut self.targets[t]) {
                        t.1 = val.unwrap_or(t.1);
                        t.0 = id.unwrap_or(t.0);
                    }
                }
                HAct::Keep => {
                    if let (Some(t), true) = (target, self.kept.len() < MAX_KEPT) {
                        self.kept.push(t);
                    }
                }
                HAct::MutKept { which, val, id } => {
                    if let Some(t) = self.kept.get(usize::from(*which) % self.kept.len().max(1)) {
                        let t = &mut self.targets[*t];
                        self.log.push(Ev::Kept(Some(*t)));
                        t.1 = val.unwrap_or(t.1);
                        t.0 = id.unwrap_or(t.0);
                    }
                }
                HAct::Bump { res, by } => {
                    if let Some(k) = shape.get(usize::from(*res)) {
                        if let Some(v) = self.res[*k].as_mut() {
                            *v += u64::from(*by);
                        }
                    }
                }
                HAct::Sub { body, end, on } => self.settle("hook sub", *on, |m| {
                    m.scoped(Some(level), |m, sub| {
                        m.exec_all(&[sub], body)?;
                        m.full("hook sub end", &[sub]);
                        Self::finish(end)
                    })
                })?,
            }
        }
        Self::finish(&hook.end).map(|_| ())
    }

    fn snapshot(&mut self) {
        self.log
            .push(Ev::Graph(self.graph.iter().map(|(k, v)| (*k, *v)).collect()));
        self.log.push(Ev::Resources(self.res.clone()));
    }

    fn tx_body(&mut self, level: usize, acts: &[Act], end: &End) -> MResult<u32> {
        self.full("tx start", &[level]);
        self.exec_all(&[level], acts)?;
        self.tick()?;
        self.full("tx end", &[level]);
        Self::finish(end)
    }

    fn step(&mut self, step: &Step) {
        let _ = match step {
            Step::Tx { body, end, cleanup } => self.settle("tx", CONTAIN, |m| {
                let r = m.scoped(None, |m, level| m.tx_body(level, body, end));
                m.clean(&[], *cleanup);
                r
            }),
            Step::Pre { first, second, run } => self.settle("pre", CONTAIN, |m| {
                let level = m.open(None);
                let r = m.exec_all(&[level], first);
                if let Err(Flow::Panic(k)) = r {
                    return Err(Flow::Panic(k));
                }
                m.log.push(Ev::Out("pre first", Self::outcome(&r.map(|_| 0))));
                let r = m.exec_all(&[level], second);
                if let Err(Flow::Panic(k)) = r {
                    return Err(Flow::Panic(k));
                }
                m.log.push(Ev::Out("pre second", Self::outcome(&r.map(|_| 0))));
                m.full("pre a", &[level]);
                m.full("pre b", &[level]);
                let r = match run {
                    Some((acts, end)) => m.tx_body(level, acts, end),
                    None => return Ok(0),
                };
                if r.is_ok() {
                    m.merge(level);
                }
                r
            }),
            Step::Batch(runs) => {
                for (acts, end) in runs.iter().flatten() {
                    let _ = self.settle("batch", CONTAIN, |m| {
                        m.scoped(None, |m, level| m.tx_body(level, acts, end))
                    });
                    self.snapshot();
                }
                Ok(())
            }
            Step::Direct(ops) => {
                for (id, val) in ops {
                    match val {
                        Some(val) => self.graph.insert(*id, *val),
                        None => self.graph.remove(id),
                    };
                }
                Ok(())
            }
            Step::OpSave { id, val } => {
                self.settle("top save", CONTAIN, |m| m.op_save(None, *id, *val))
            }
            Step::OpDelete { id } => {
                self.settle("top delete", CONTAIN, |m| m.op_delete(None, *id))
            }
            Step::Run { sched } => self.settle("top run", CONTAIN, |m| {
                m.scoped(None, |m, level| {
                    m.fire(*sched % N_SCHED, level, None)?;
                    m.full("run end", &[level]);
                    Ok(0)
                })
            }),
        };
    }
}

pub fn run_model(case: &Case, bombs: [Option<u64>; 2]) -> (Vec<Ev>, u64) {
    let mut res = vec![None; usize::from(N_RES)];
    let mut hooks = Vec::new();
    for reg in flatten(&case.build) {
        match reg {
            Reg::Res(k, v) => res[usize::from(k % N_RES)] = Some(u64::from(v)),
            Reg::Hook(h) => hooks.push(h),
            Reg::Plugin(_) | Reg::Plain(_) => unreachable!("flattened"),
        }
    }
    let mut m = Model {
        graph: case.init.iter().copied().collect(),
        levels: Vec::new(),
        res,
        hooks,
        log: Vec::new(),
        ids: all_ids(case),
        depth: 0,
        max_depth: case.hook_depth(),
        fuel: case.hook_fuel(),
        ticks: 0,
        bombs,
        targets: Vec::new(),
        kept: Vec::new(),
    };
    m.snapshot();
    for step in &case.steps {
        m.depth = 0;
        m.step(step);
        for t in m.kept.clone() {
            let t = &mut m.targets[t];
            m.log.push(Ev::Kept(Some(*t)));
            t.1 = t.1.wrapping_add(1000);
        }
        m.snapshot();
    }
    (m.log, m.ticks)
}

/// The first difference between what happened and what should have.
pub fn compare(got: &[Ev], want: &[Ev]) -> std::result::Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(format!("event {i}: got {}, want {}", brief(g), brief(w)));
        }
    }
    if got.len() != want.len() {
        return Err(format!(
            "got {} events, want {}; next: {}",
            got.len(),
            want.len(),
            got.get(want.len())
                .or_else(|| want.get(got.len()))
                .map(brief)
                .unwrap_or_default()
        ));
    }
    Ok(())
}

fn brief(ev: &Ev) -> String {
    let mut s = format!("{ev:?}");
    if s.len() > 600 {
        let mut cut = 600;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        s.push('…');
    }
    s
}
