//! Scheduling of triggers (S06).

use std::{cell::{Cell, RefCell}, marker::PhantomData, rc::Rc};

use plotline::{
    deref::With,
    graph::{Graph, Source},
    id::Identify,
    schema::{
        plugin::Plugin,
        resource::Res,
        transaction::{Context, Ctx, Target, Transaction},
        trigger::{Trigger, TriggerSet},
        Error, Result, Schema,
    },
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{Obs, Prop, Tier, R},
};

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Node {
    id: u16,
    val: u32,
}

impl Identify for Node {
    type Id = u16;

    fn id(&self) -> &u16 {
        &self.id
    }
}

/// The identifier every parameter looks up in its context.
const PROBE: u16 = 0;
/// Number of schedules.
const SCHEDS: u8 = 11;
/// Number of parameter layouts.
const LAYOUTS: u8 = 5;
const MAX_DEPTH: u32 = 2;
const FUEL: u32 = 200;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ret {
    Ok,
    Fail(String),
    Noop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TReg {
    pub sched: u8,
    /// Number of parameters besides the context; above 8 it is a hand-written trigger, one that borrows or one
    /// without any state.
    pub arity: u8,
    pub layout: u8,
    /// Fails from this invocation on.
    pub from: u8,
    pub ret: Ret,
    /// Schedule executed by the trigger itself, under a target of its own.
    pub cascade: Option<(u8, Option<u32>)>,
    /// Registered by a plugin.
    pub plugin: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exec {
    pub sched: u8,
    pub target: Option<(u16, u32)>,
    /// Value written under the probed identifier before executing.
    pub probe: Option<Option<u32>>,
    /// Nesting of the context.
    pub depth: u8,
    /// How many times the same selection is executed.
    pub times: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub stored: Option<u32>,
    pub resource: Option<u32>,
    /// Selects from a set of triggers of its own instead of the one of the schema.
    pub detached: bool,
    pub regs: Vec<TReg>,
    pub execs: Vec<Exec>,
    /// Triggers of further schedules: which one, and before which of the others.
    #[serde(default)]
    pub crowd: Vec<(u8, u8)>,
}

/// What a parameter was resolved to.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Arg {
    /// Marker, target and probed value of the context it was resolved from.
    Ctx(u8, Option<(u16, u32)>, Option<u32>),
    Target(Option<(u16, u32)>),
    Res(Option<u32>),
}

trait Param {
    fn arg(&self) -> Arg;
}

fn target_of(t: &Target<Node>) -> Option<(u16, u32)> {
    t.with(|n: &Node| (n.id, n.val))
}

struct E<const K: u8>(Arg);

impl<const K: u8> From<&Context<'_, Node>> for E<K> {
    fn from(ctx: &Context<'_, Node>) -> Self {
        E(Arg::Ctx(
            K,
            target_of(ctx.target()),
            ctx.get(&PROBE).map(|n| n.val),
        ))
    }
}

impl<const K: u8> Param for E<K> {
    fn arg(&self) -> Arg {
        self.0.clone()
    }
}

/// A parameter that claims to borrow from the context.
struct B<'a>(Arg, PhantomData<&'a ()>);

impl From<&Context<'_, Node>> for B<'_> {
    fn from(ctx: &Context<'_, Node>) -> Self {
        B(
            Arg::Ctx(
                100,
                target_of(ctx.target()),
                ctx.get(&PROBE).map(|n| n.val),
            ),
            PhantomData,
        )
    }
}

impl Param for B<'_> {
    fn arg(&self) -> Arg {
        self.0.clone()
    }
}

impl Param for Target<Node> {
    fn arg(&self) -> Arg {
        Arg::Target(target_of(self))
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Number(u32);

impl Param for Res<Number> {
    fn arg(&self) -> Arg {
        Arg::Res(self.with(|n: &Number| n.0))
    }
}

/// The markers of the parameters of a layout: below 50 `E`, 100 `B`, 101 target, 102 resource.
fn layout(layout: u8, arity: u8) -> Vec<u8> {
    let all: [u8; 8] = match layout % LAYOUTS {
        0 => [0, 1, 2, 3, 4, 5, 6, 7],
        1 => [7, 6, 5, 4, 3, 2, 1, 0],
        2 => [101, 102, 3, 101, 4, 102, 5, 6],
        3 => [2, 2, 2, 2, 2, 2, 2, 2],
        _ => [9, 101, 9, 8, 102, 8, 7, 101],
    };
    all[..usize::from(arity.min(8))].to_vec()
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Call(usize, Vec<Arg>),
    /// A call of a trigger without state, which knows not when it was registered.
    Plain(u8, Vec<Arg>),
    Result(Ret),
}

/// Values of two types that go by one name.
fn twins() -> (impl Copy + 'static, impl Copy + 'static) {
    let first = {
        #[derive(Clone, Copy)]
        struct Twin;
        Twin
    };
    let second = {
        #[derive(Clone, Copy)]
        struct Twin;
        Twin
    };
    (first, second)
}

/// Applies a macro to the schedule value of an index. Several values of one type are one schedule:
/// 8 stands for the same schedule as 4, under another value.
macro_rules! with_sched {
    ($n:expr, $s:ident => $body:expr) => {
        match $n % SCHEDS {
            0 => {
                let $s = Unit;
                $body
            }
            1 => {
                let $s = Generic::<1>;
                $body
            }
            2 => {
                let $s = Generic::<2>;
                $body
            }
            3 => {
                let $s = ();
                $body
            }
            4 => {
                let $s = 4u8;
                $body
            }
            5 => {
                let $s = "text";
                $body
            }
            6 => {
                let $s = String::from("text");
                $body
            }
            7 => {
                let $s = 4i8;
                $body
            }
            8 => {
                let $s = 200u8;
                $body
            }
            // Two types that go by the same name.
            9 => {
                let $s = twins().0;
                $body
            }
            _ => {
                let $s = twins().1;
                $body
            }
        }
    };
}

#[derive(Default)]
struct Shared {
    log: RefCell<Vec<Ev>>,
    calls: RefCell<Vec<u32>>,
    depth: RefCell<u32>,
    fuel: RefCell<u32>,
    other: Option<Other>,
}

/// A schema besides the one of the case, with triggers on each of the schedules, used by turns with it.
struct Other {
    schema: Schema<Node>,
    log: Rc<RefCell<Vec<u8>>>,
    turns: Cell<u8>,
    wrong: RefCell<Option<String>>,
}

impl Default for Other {
    fn default() -> Other {
        let log: Rc<RefCell<Vec<u8>>> = Default::default();
        let mut schema = Schema::from(Graph::default());
        for n in 0..2 * SCHEDS {
            let log = log.clone();
            schema = with_sched!(n, s => schema.with_trigger(s, move |_: Ctx<'_, Node>| {
                log.borrow_mut().push(n);
                Ok(())
            }));
        }
        Other {
            schema,
            log,
            turns: Default::default(),
            wrong: Default::default(),
        }
    }
}

impl Other {
    /// Runs the triggers of a schedule, or of one that follows.
    fn turn(&self, sched: u8) {
        let turn = self.turns.get();
        self.turns.set(turn.wrapping_add(1));
        let sched = (sched % SCHEDS + turn % 3 / 2) % SCHEDS;
        let r: Result<()> = self.schema.transaction().with(|ctx| {
            with_sched!(sched, s => ctx.triggers().select(s).execute(&ctx))
        });
        let want: Vec<u8> = (0..2 * SCHEDS).filter(|n| same(*n) == same(sched)).collect();
        let got = self.log.take();
        if r.is_err() || got != want {
            *self.wrong.borrow_mut() = Some(format!("turn {turn}, schedule {sched}: {got:?} ({r:?}), want {want:?}"));
        }
    }
}

fn to_ret(r: &Result<()>) -> Ret {
    match r {
        Ok(()) => Ret::Ok,
        Err(Error::Noop) => Ret::Noop,
        Err(Error::Msg(m)) => Ret::Fail(m.clone()),
    }
}

thread_local! {
    /// What triggers without state take from their surroundings.
    static SURROUNDINGS: RefCell<Option<Rc<Shared>>> = const { RefCell::new(None) };
}

/// Puts back what the surroundings were.
struct Surroundings(Option<Rc<Shared>>);

impl Drop for Surroundings {
    fn drop(&mut self) {
        SURROUNDINGS.with(|s| *s.borrow_mut() = self.0.take());
    }
}

/// Body of the triggers without state.
fn plain(which: u8, args: Vec<Arg>) -> Result<()> {
    SURROUNDINGS.with(|s| {
        let s = s.borrow();
        let shared = s.as_ref().expect("set while a case runs");
        if *shared.fuel.borrow() > 0 {
            *shared.fuel.borrow_mut() -= 1;
            shared.log.borrow_mut().push(Ev::Plain(which, args));
        }
    });
    Ok(())
}

fn plain_function(_: Ctx<'_, Node>, a: E<1>, b: Target<Node>) -> Result<()> {
    plain(0, vec![a.arg(), b.arg()])
}

/// Body common to all triggers.
fn called(
    shared: &Rc<Shared>,
    set: &Rc<RefCell<Option<TriggerSet<Node>>>>,
    idx: usize,
    reg: &TReg,
    ctx: Option<&Ctx<'_, Node>>,
    args: Vec<Arg>,
) -> Result<()> {
    if *shared.fuel.borrow() == 0 {
        return Ok(());
    }
    *shared.fuel.borrow_mut() -= 1;
    shared.log.borrow_mut().push(Ev::Call(idx, args));
    crate::runner::meanwhile();
    if let Some(other) = &shared.other {
        other.turn(reg.sched);
    }
    shared.calls.borrow_mut()[idx] += 1;

    if let (Some((sched, val)), Some(ctx)) = (reg.cascade, ctx) {
        if *shared.depth.borrow() < MAX_DEPTH {
            *shared.depth.borrow_mut() += 1;
            let _ = ctx.transaction().with(|ctx| -> Result<()> {
                let ctx = match val {
                    Some(val) => ctx.with_target(Node { id: 77, val }),
                    None => ctx,
                };
                ctx.save(Node {
                    id: PROBE,
                    val: idx as u32 + 500,
                });
                let r = execute(sched, set, &ctx, 1, |_| {});
                shared.log.borrow_mut().push(Ev::Result(to_ret(&r)));
                Err(Error::custom("rolled back"))
            });
            *shared.depth.borrow_mut() -= 1;
        }
    }
    if shared.calls.borrow()[idx] > u32::from(reg.from) {
        return match &reg.ret {
            Ret::Ok => Ok(()),
            Ret::Fail(m) => Err(Error::custom(m)),
            Ret::Noop => Err(Error::Noop),
        };
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Unit;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Generic<const K: usize>;

/// Schedules with the same number are the same type.
fn same(sched: u8) -> u8 {
    match sched % SCHEDS {
        8 => 4,
        s => s,
    }
}

fn execute(
    sched: u8,
    set: &Rc<RefCell<Option<TriggerSet<Node>>>>,
    ctx: &Context<'_, Node>,
    times: u8,
    mut each: impl FnMut(&Result<()>),
) -> Result<()> {
    let detached = set.borrow();
    let triggers = detached.as_ref().unwrap_or_else(|| ctx.triggers());
    with_sched!(sched, s => {
        // One selection is as good the second time.
        let selection = triggers.select(s);
        let mut last = Ok(());
        for _ in 0..times {
            last = selection.execute(ctx);
            each(&last);
        }
        last
    })
}

/// Where triggers are registered.
enum Builder {
    Schema(Schema<Node>),
    Set(TriggerSet<Node>, Schema<Node>),
}

struct One<S, Args, Tr>(S, Tr, PhantomData<Args>);

impl<S, Args, Tr> Plugin<Node> for One<S, Args, Tr>
where
    S: 'static,
    Args: 'static,
    Tr: Trigger<Node, Args> + 'static,
{
    fn install(self, schema: Schema<Node>) -> Schema<Node> {
        schema.with_trigger(self.0, self.1)
    }
}

/// Further schedules.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Extra<const K: usize>;

macro_rules! for_extras {
    ($k:ident => $body:expr) => {
        for_extras!($k => $body;
            0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)
    };
    ($k:ident => $body:expr; $($n:literal)*) => {
        $({
            const $k: usize = $n;
            $body
        })*
    };
}

const EXTRAS: u8 = 40;
type Counts = Rc<RefCell<Vec<Vec<usize>>>>;

impl Builder {
    /// A trigger of a further schedule, that only notes its number.
    fn extra(mut self, which: u8, number: usize, counts: &Counts) -> Builder {
        for_extras!(K => if K == usize::from(which) {
            let counts = counts.clone();
            let trigger = move |_: Ctx<'_, Node>| {
                counts.borrow_mut()[K].push(number);
                Ok(())
            };
            self = match self {
                Builder::Schema(schema) => Builder::Schema(schema.with_trigger(Extra::<K>, trigger)),
                Builder::Set(set, schema) => Builder::Set(set.with_trigger(Extra::<K>, trigger), schema),
            };
        });
        self
    }

    fn add<Args: 'static>(
        self,
        reg: &TReg,
        trigger: impl Trigger<Node, Args> + 'static,
    ) -> Builder {
        match self {
            Builder::Schema(schema) if reg.plugin => Builder::Schema(
                with_sched!(reg.sched, s => schema.install(One(s, trigger, PhantomData))),
            ),
            Builder::Schema(schema) => {
                Builder::Schema(with_sched!(reg.sched, s => schema.with_trigger(s, trigger)))
            }
            Builder::Set(set, schema) => Builder::Set(
                with_sched!(reg.sched, s => set.with_trigger(s, trigger)),
                schema,
            ),
        }
    }
}

/// A trigger that is no function.
struct Manual<F>(F);

impl<F> Trigger<Node, Manual<()>> for Manual<F>
where
    F: Fn(&Context<'_, Node>) -> Result<()>,
{
    fn execute(&self, ctx: &Context<'_, Node>) -> Result<()> {
        (self.0)(ctx)
    }
}

macro_rules! register {
    ($builder:expr, $reg:expr, $shared:expr, $set:expr, $idx:expr; $($p:ident : $t:ty),*) => {{
        let (reg, shared, set, idx) = ($reg.clone(), $shared.clone(), $set.clone(), $idx);
        $builder.add($reg, move |ctx: Ctx<'_, Node> $(, $p: $t)*| -> Result<()> {
            let args: Vec<Arg> = vec![$($p.arg()),*];
            called(&shared, &set, idx, &reg, Some(&ctx), args)
        })
    }};
}

macro_rules! by_arity {
    ($arity:expr; $b:expr, $r:expr, $s:expr, $x:expr, $i:expr;
     $a0:ty, $a1:ty, $a2:ty, $a3:ty, $a4:ty, $a5:ty, $a6:ty, $a7:ty) => {
        match $arity {
            0 => register!($b, $r, $s, $x, $i;),
            1 => register!($b, $r, $s, $x, $i; a: $a0),
            2 => register!($b, $r, $s, $x, $i; a: $a0, b: $a1),
            3 => register!($b, $r, $s, $x, $i; a: $a0, b: $a1, c: $a2),
            4 => register!($b, $r, $s, $x, $i; a: $a0, b: $a1, c: $a2, d: $a3),
            5 => register!($b, $r, $s, $x, $i; a: $a0, b: $a1, c: $a2, d: $a3, e: $a4),
            6 => register!($b, $r, $s, $x, $i; a: $a0, b: $a1, c: $a2, d: $a3, e: $a4, f: $a5),
            7 => register!($b, $r, $s, $x, $i; a: $a0, b: $a1, c: $a2, d: $a3, e: $a4, f: $a5, g: $a6),
            _ => register!($b, $r, $s, $x, $i; a: $a0, b: $a1, c: $a2, d: $a3, e: $a4, f: $a5, g: $a6, h: $a7),
        }
    };
}

fn borrowing(
    shared: Rc<Shared>,
    set: Rc<RefCell<Option<TriggerSet<Node>>>>,
    idx: usize,
    reg: TReg,
) -> impl Fn(Ctx<Node>, B, Target<Node>, B) -> Result<()> {
    move |ctx, a, b, c| called(&shared, &set, idx, &reg, Some(&ctx), vec![a.arg(), b.arg(), c.arg()])
}

fn register(
    b: Builder,
    reg: &TReg,
    shared: &Rc<Shared>,
    set: &Rc<RefCell<Option<TriggerSet<Node>>>>,
    idx: usize,
) -> Builder {
    match (reg.arity, reg.layout % LAYOUTS) {
        (9, _) => {
            let (reg2, shared, set) = (reg.clone(), shared.clone(), set.clone());
            b.add(
                reg,
                Manual(move |ctx: &Context<'_, Node>| {
                    let arg = Arg::Ctx(
                        99,
                        target_of(ctx.target()),
                        ctx.get(&PROBE).map(|n| n.val),
                    );
                    called(&shared, &set, idx, &reg2, None, vec![arg])
                }),
            )
        }
        (11, layout) => match layout % 3 {
            0 => b.add(reg, plain_function),
            1 => b.add(reg, |_: Ctx<'_, Node>| plain(1, Vec::new())),
            _ => b.add(
                reg,
                Manual(|ctx: &Context<'_, Node>| plain(2, vec![Arg::Target(target_of(ctx.target()))])),
            ),
        },
        (10.., _) => b.add(
            reg,
            borrowing(shared.clone(), set.clone(), idx, reg.clone()),
        ),
        (n, 0) => {
            by_arity!(n; b, reg, shared, set, idx; E<0>, E<1>, E<2>, E<3>, E<4>, E<5>, E<6>, E<7>)
        }
        (n, 1) => {
            by_arity!(n; b, reg, shared, set, idx; E<7>, E<6>, E<5>, E<4>, E<3>, E<2>, E<1>, E<0>)
        }
        (n, 2) => {
            by_arity!(n; b, reg, shared, set, idx; Target<Node>, Res<Number>, E<3>, Target<Node>, E<4>, Res<Number>, E<5>, E<6>)
        }
        (n, 3) => {
            by_arity!(n; b, reg, shared, set, idx; E<2>, E<2>, E<2>, E<2>, E<2>, E<2>, E<2>, E<2>)
        }
        (n, _) => {
            by_arity!(n; b, reg, shared, set, idx; E<9>, Target<Node>, E<9>, E<8>, Res<Number>, E<8>, E<7>, Target<Node>)
        }
    }
}

// The model.

struct Model<'c> {
    case: &'c Case,
    calls: Vec<u32>,
    log: Vec<Ev>,
    depth: u32,
    fuel: u32,
}

impl Model<'_> {
    fn execute(&mut self, sched: u8, target: Option<(u16, u32)>, probe: Option<u32>) -> Ret {
        for idx in 0..self.case.regs.len() {
            let reg = &self.case.regs[idx];
            if same(reg.sched) != same(sched) {
                continue;
            }
            if self.fuel == 0 {
                continue;
            }
            self.fuel -= 1;
            let ctx = |k| Arg::Ctx(k, target, probe);
            if reg.arity == 11 {
                self.log.push(match reg.layout % LAYOUTS % 3 {
                    0 => Ev::Plain(0, vec![ctx(1), Arg::Target(target)]),
                    1 => Ev::Plain(1, Vec::new()),
                    _ => Ev::Plain(2, vec![Arg::Target(target)]),
                });
                continue;
            }
            let args = match reg.arity {
                9 => vec![ctx(99)],
                10.. => vec![ctx(100), Arg::Target(target), ctx(100)],
                n => layout(reg.layout, n)
                    .into_iter()
                    .map(|m| match m {
                        101 => Arg::Target(target),
                        102 => Arg::Res(self.case.resource),
                        k => ctx(k),
                    })
                    .collect(),
            };
            self.log.push(Ev::Call(idx, args));
            self.calls[idx] += 1;
            if let (Some((sched, val)), true) = (reg.cascade, reg.arity != 9) {
                if self.depth < MAX_DEPTH {
                    self.depth += 1;
                    let r = self.execute(sched, val.map(|v| (77, v)), Some(idx as u32 + 500));
                    self.depth -= 1;
                    self.log.push(Ev::Result(r));
                }
            }
            if self.calls[idx] > u32::from(reg.from) && reg.ret != Ret::Ok {
                return reg.ret.clone();
            }
        }
        Ret::Ok
    }
}

pub struct S06;

impl Prop for S06 {
    type Case = Case;

    const ID: &'static str = "S06";
    const RULE: &'static str = "up to a dozen triggers of 0 to 8 parameters (five layouts of seven parameter types, hand-written and borrowing triggers, ones without state) spread over eleven schedule values of ten types (now and then forty more) (zero-sized, generic, textual, numeric, two with one name), failing from some invocation on or executing further schedules, registered directly or by plugins, in a schema or a set of their own; executed repeatedly in contexts with and without target, at several depths; invocation log with resolved parameters and results compared with a model; non-trivial: one execution that runs two triggers and either skips one of another schedule or stops at a failure";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let ret = prop_oneof![
            5 => Just(Ret::Ok),
            1 => "[a-z{}]{0,3}".prop_map(Ret::Fail),
            1 => Just(Ret::Noop),
        ];
        // Few schedules per case, so that they are shared, or all of them.
        let sched = prop_oneof![2 => Just(3u8), 1 => Just(SCHEDS)];
        sched
            .prop_flat_map(move |n| {
                let base = 0..SCHEDS;
                (Just(n), base)
            })
            .prop_flat_map(move |(n, base)| {
                let sched = (0..n).prop_map(move |s| (s + base) % SCHEDS);
                let reg = (
                    sched.clone(),
                    prop_oneof![8 => 0u8..9, 1 => Just(9u8), 1 => Just(10u8), 2 => Just(11u8)],
                    0..LAYOUTS,
                    0u8..3,
                    ret.clone(),
                    proptest::option::weighted(
                        0.2,
                        (sched.clone(), proptest::option::of(0u32..9)),
                    ),
                    prop::bool::weighted(0.2),
                )
                    .prop_map(|(sched, arity, layout, from, ret, cascade, plugin)| TReg {
                        sched,
                        arity,
                        layout,
                        from,
                        ret,
                        cascade,
                        plugin,
                    });
                let exec = (
                    sched,
                    proptest::option::of((0u16..3, 0u32..9)),
                    proptest::option::weighted(0.4, proptest::option::of(0u32..9)),
                    prop_oneof![40 => 0u8..3, 1 => 3u8..60],
                    1u8..3,
                )
                    .prop_map(|(sched, target, probe, depth, times)| Exec {
                        sched,
                        target,
                        probe,
                        depth,
                        times,
                    });
                (
                    proptest::option::of(0u32..9),
                    proptest::option::of(0u32..9),
                    prop::bool::weighted(0.2),
                    prop_oneof![16 => vec(reg.clone(), 0..6), 4 => vec(reg.clone(), 6..14), 1 => vec(reg, 20..70)],
                    vec(exec, 1..5),
                    prop_oneof![30 => Just(Vec::new()), 1 => vec((0..EXTRAS, 0u8..10), 1..60)],
                )
            })
            .prop_map(|(stored, resource, detached, regs, execs, crowd)| Case {
                crowd,
                stored,
                resource,
                detached,
                regs,
                execs,
            })
            .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(3_000_000, 20_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let mut model = Model {
            case,
            calls: vec![0; case.regs.len()],
            log: Vec::new(),
            depth: 0,
            fuel: FUEL,
        };
        let mut interesting = false;
        for exec in &case.execs {
            let mut probe = case.stored;
            if let Some(p) = exec.probe {
                probe = p;
            }
            if exec.times > 1 {
                model.log.push(Ev::Result(Ret::Ok));
            }
            for _ in 0..exec.times {
                let before = model.log.len();
                let r = model.execute(exec.sched, exec.target, probe);
                let ran = model.log.len() - before;
                let others = case.regs.iter().any(|r| same(r.sched) != same(exec.sched));
                interesting |= ran >= 2 && (others || r != Ret::Ok);
                obs.label_if(r != Ret::Ok, "stopped at a failure");
                obs.label_if(ran == 0, "empty schedule");
                obs.label_if(ran >= 4, "four triggers or more in one execution");
                model.log.push(Ev::Result(r));
            }
        }
        obs.nontrivial(interesting);

        let shared = Rc::new(Shared {
            calls: RefCell::new(vec![0; case.regs.len()]),
            fuel: RefCell::new(FUEL),
            other: ((case.regs.len() + case.execs.len()) % 6 == 1).then(Other::default),
            ..Default::default()
        });
        let _surroundings = Surroundings(SURROUNDINGS.with(|s| s.borrow_mut().replace(shared.clone())));
        let set = Rc::new(RefCell::new(None));
        let graph = Graph::from_iter(case.stored.map(|val| Node { id: PROBE, val }));
        let mut schema = Schema::from(graph);
        let mut b = if case.detached {
            if let Some(v) = case.resource {
                schema = schema.with_resource(Number(v));
            }
            Builder::Set(TriggerSet::default(), schema)
        } else {
            Builder::Schema(schema)
        };
        let counts: Counts = Rc::new(RefCell::new(vec![Vec::new(); usize::from(EXTRAS)]));
        let mut extras: Vec<Vec<usize>> = vec![Vec::new(); usize::from(EXTRAS)];
        for idx in 0..=case.regs.len() {
            for (number, (which, at)) in case.crowd.iter().enumerate() {
                if usize::from(*at).min(case.regs.len()) == idx {
                    b = b.extra(which % EXTRAS, number, &counts);
                    extras[usize::from(which % EXTRAS)].push(number);
                }
            }
            let Some(reg) = case.regs.get(idx) else { break };
            // The resource is registered in the middle of the triggers.
            if idx == case.regs.len() / 2 {
                b = add_resource(b, case);
            }
            b = register(b, reg, &shared, &set, idx);
        }
        if case.regs.is_empty() {
            b = add_resource(b, case);
        }
        let schema = match b {
            Builder::Schema(schema) => schema,
            Builder::Set(triggers, schema) => {
                *set.borrow_mut() = Some(triggers);
                schema
            }
        };

        for exec in &case.execs {
            if let Some(other) = &shared.other {
                other.turn(exec.sched);
            }
            // Whatever happens is rolled back, for the next execution to start afresh.
            let _ = schema
                .transaction()
                .with(|ctx| in_depth(exec, ctx, exec.depth, &set, &shared));
        }
        if !case.crowd.is_empty() {
            ensure!(
                counts.borrow().iter().all(Vec::is_empty),
                "triggers of further schedules ran: {counts:?}"
            );
            let before = shared.log.borrow().len();
            let r: Result<()> = schema.transaction().with(|ctx| {
                let detached = set.borrow();
                let triggers = detached.as_ref().unwrap_or_else(|| ctx.triggers());
                for_extras!(K => triggers.select(Extra::<K>).execute(&ctx)?);
                Ok(())
            });
            ensure!(r.is_ok(), "executing further schedules: {r:?}");
            ensure_eq!(*counts.borrow(), extras, "triggers run for further schedules");
            ensure_eq!(shared.log.borrow().len(), before, "events while executing further schedules");
            obs.label_if(extras.iter().filter(|e| !e.is_empty()).count() > 10, "more than ten further schedules");
        }
        // Cycles: the triggers hold on to the set they are in.
        *set.borrow_mut() = None;

        if let Some(other) = &shared.other {
            obs.label("another schema by turns");
            let wrong = other.wrong.take();
            ensure!(wrong.is_none(), "the other schema: {wrong:?}");
        }
        let log = shared.log.borrow();
        for (i, (got, want)) in log.iter().zip(&model.log).enumerate() {
            ensure_eq!(got, want, "event {i}");
        }
        ensure_eq!(log.len(), model.log.len(), "number of events ({:?})", log.last());
        Ok(())
    }
}

fn add_resource(b: Builder, case: &Case) -> Builder {
    match (b, case.resource) {
        (Builder::Schema(schema), Some(v)) => Builder::Schema(schema.with_resource(Number(v))),
        (b, _) => b,
    }
}

fn in_depth(
    exec: &Exec,
    ctx: Context<'_, Node>,
    depth: u8,
    set: &Rc<RefCell<Option<TriggerSet<Node>>>>,
    shared: &Rc<Shared>,
) -> Result<()> {
    if depth > 0 {
        // An outer target is none of the inner contexts' business.
        let ctx = ctx.with_target(Node { id: 66, val: 66 });
        return ctx
            .transaction()
            .with(|inner| in_depth(exec, inner, depth - 1, set, shared));
    }
    match exec.probe {
        Some(Some(val)) => ctx.save(Node { id: PROBE, val }),
        Some(None) => ctx.delete(PROBE),
        None => {}
    }
    let ctx = match exec.target {
        Some((id, val)) => ctx.with_target(Node { id, val }),
        None => ctx,
    };
    if exec.times > 1 {
        let empty = with_sched!(exec.sched, s => {
            let none = TriggerSet::<Node>::default();
            none.select(s).execute(&ctx)
        });
        shared.log.borrow_mut().push(Ev::Result(to_ret(&empty)));
    }
    let _ = execute(exec.sched, set, &ctx, exec.times, |r| {
        shared.log.borrow_mut().push(Ev::Result(to_ret(r)));
    });
    Err(Error::custom("rolled back"))
}
