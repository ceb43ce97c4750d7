//! Resources of a schema (S07).

use std::{
    any::{Any, TypeId},
    cell::{Cell, RefCell},
    panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe},
    rc::Rc,
};

use plotline::{
    deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut},
    graph::Graph,
    id::Identify,
    schema::{
        resource::{Res, ResourceSet},
        transaction::{Ctx, Target, Transaction},
        trigger::Trigger,
        Result, Schema,
    },
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{Obs, Prop, Tier, R},
};

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Node {
    id: u16,
    val: u64,
}

impl Identify for Node {
    type Id = u16;

    fn id(&self) -> &u16 {
        &self.id
    }
}

/// A type of resource holding a number.
trait Kind: 'static {
    fn make(v: u64) -> Self;
    fn number(&self) -> u64;
    fn set(&mut self, v: u64);
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Tag<const K: usize>;

/// Different types that nevertheless have the same name, module, size and shape.
trait Twin {
    type T: Kind;
}

macro_rules! twin {
    ($k:literal) => {
        const _: () = {
            #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct Plain(u64);

            impl Kind for Plain {
                fn make(v: u64) -> Self {
                    Plain(v)
                }

                fn number(&self) -> u64 {
                    self.0
                }

                fn set(&mut self, v: u64) {
                    self.0 = v;
                }
            }

            impl Twin for Tag<$k> {
                type T = Plain;
            }
        };
    };
}

twin!(0);
twin!(1);

impl Kind for u64 {
    fn make(v: u64) -> Self {
        v
    }

    fn number(&self) -> u64 {
        *self
    }

    fn set(&mut self, v: u64) {
        *self = v;
    }
}

impl Kind for Box<u64> {
    fn make(v: u64) -> Self {
        Box::new(v)
    }

    fn number(&self) -> u64 {
        **self
    }

    fn set(&mut self, v: u64) {
        **self = v;
    }
}

impl Kind for Box<dyn Any> {
    fn make(v: u64) -> Self {
        Box::new(v)
    }

    fn number(&self) -> u64 {
        *(**self).downcast_ref::<u64>().expect("boxed number")
    }

    fn set(&mut self, v: u64) {
        *(**self).downcast_mut::<u64>().expect("boxed number") = v;
    }
}

impl Kind for String {
    fn make(v: u64) -> Self {
        v.to_string()
    }

    fn number(&self) -> u64 {
        self.parse().expect("a number")
    }

    fn set(&mut self, v: u64) {
        *self = v.to_string();
    }
}

/// Further types of resource.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Extra<const K: u64>(u64);

macro_rules! for_extras {
    ($k:ident => $body:expr) => {
        for_extras!($k => $body;
            0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)
    };
    ($k:ident => $body:expr; $($n:literal)*) => {
        $({
            const $k: u64 = $n;
            $body
        })*
    };
}

/// A type of resource of uncommon shape, holding what fits into it of a number.
trait Odd: 'static {
    fn make(v: u64) -> Self;
    fn holds(&self, v: u64) -> bool;
}

struct Nothing;
struct Phantom<T>(std::marker::PhantomData<T>);
#[repr(align(256))]
struct Aligned(u64);
#[derive(Clone, Copy)]
enum Never {}
struct Drops(Rc<RefCell<Vec<u64>>>, u64);

impl Drop for Drops {
    fn drop(&mut self) {
        self.0.borrow_mut().push(self.1);
    }
}

macro_rules! odd {
    ($($t:ty, $v:ident => $make:expr, $this:ident => $holds:expr;)*) => {
        $(impl Odd for $t {
            #[allow(unused_variables)]
            fn make($v: u64) -> Self {
                $make
            }

            #[allow(unused_variables)]
            fn holds(&self, $v: u64) -> bool {
                let $this = self;
                $holds
            }
        })*

        macro_rules! for_odd {
            ($k:ident, $o:ident => $body:expr) => {{
                let mut k = 0;
                $({
                    type $o = $t;
                    let $k = k;
                    k += 1;
                    $body
                })*
                let _ = k;
            }};
        }
    };
}

odd! {
    (), v => (), this => true;
    Nothing, v => Nothing, this => true;
    Phantom<u64>, v => Phantom(std::marker::PhantomData), this => true;
    Phantom<String>, v => Phantom(std::marker::PhantomData), this => true;
    [u64; 0], v => [], this => true;
    [u64; 2000], v => [v; 2000], this => this.iter().all(|n| *n == v);
    Aligned, v => Aligned(v), this => this.0 == v && std::ptr::from_ref(this) as usize % 256 == 0;
    Vec<u64>, v => vec![v; 3], this => *this == [v, v, v];
    &'static str, v => if v % 2 == 0 { "even" } else { "odd" }, this => *this == if v % 2 == 0 { "even" } else { "odd" };
    fn(u64) -> u64, v => if v % 2 == 0 { |n| n } else { |n| n + 1 }, this => this(10) == 10 + v % 2;
    bool, v => v % 2 == 0, this => *this == (v % 2 == 0);
    f64, v => v as f64, this => *this == v as f64;
    i64, v => -(v as i64), this => *this == -(v as i64);
    Option<u64>, v => Some(v), this => *this == Some(v);
    Option<Never>, v => None, this => this.is_none();
    std::result::Result<u64, String>, v => Err(v.to_string()), this => *this == Err(v.to_string());
    Rc<RefCell<u64>>, v => Rc::new(RefCell::new(v)), this => *this.borrow() == v;
    std::sync::Arc<std::sync::RwLock<Box<dyn Any>>>, v => std::sync::Arc::new(std::sync::RwLock::new(Box::new(v))),
        this => this.read().unwrap().downcast_ref() == Some(&v);
    Box<dyn Fn() -> u64>, v => Box::new(move || v), this => this() == v;
    TypeId, v => if v % 2 == 0 { TypeId::of::<u8>() } else { TypeId::of::<u16>() },
        this => *this == if v % 2 == 0 { TypeId::of::<u8>() } else { TypeId::of::<u16>() };
    Node, v => Node { id: 1, val: v }, this => this.val == v;
    ResourceSet, v => ResourceSet::default().with_resource(v),
        this => { let res: Res<u64> = this.into(); res.with(|n| *n == v) == Some(true) };
    Schema<Node>, v => Schema::from(Graph::from_iter([Node { id: 1, val: v }])),
        this => this.read().into_iter().all(|node| node.val == v);
}

const ODD: u32 = 23;

/// Resources of uncommon shapes, some of them registered, in one order or the other.
fn odd_ones(which: u32, detached: bool) -> R {
    let mut set = detached.then(ResourceSet::default);
    let mut schema = Some(Schema::<Node>::from(Graph::default()));
    let drops: Rc<RefCell<Vec<u64>>> = Default::default();
    let mut register = |k: u32, v: u64| {
        macro_rules! put {
            ($value:expr) => {
                match set.take() {
                    Some(s) => set = Some(s.with_resource($value)),
                    None => schema = schema.take().map(|s| s.with_resource($value)),
                }
            };
        }
        for_odd!(K, O => if k == K {
            put!(<O as Odd>::make(v));
        });
        if k == ODD {
            put!(Drops(drops.clone(), v));
        }
    };
    let chosen = |k: u32| which >> k & 1 == 1;
    for k in 0..=ODD {
        if chosen(k) {
            register(k, 900);
        }
    }
    // Some anew, in the other order.
    let again = |k: u32| chosen(k) && which >> (k % 7) & 2 == 2;
    for k in (0..=ODD).rev() {
        if again(k) {
            register(k, 901);
        }
    }
    let all: &ResourceSet = match &set {
        Some(set) => set,
        None => schema.as_ref().expect("schema").resources(),
    };
    macro_rules! expect {
        ($k:expr, $o:ty, $holds:expr, $make:expr) => {{
            let res: Res<$o> = all.into();
            let name = std::any::type_name::<$o>();
            let now = if again($k) { 901 } else { 900 };
            let want = chosen($k).then_some(true);
            ensure_eq!(res.exists(), chosen($k), "{name} exists");
            ensure_eq!(res.with(|o: &$o| $holds(o, now)), want, "value of {name}");
            ensure_eq!(res.with_mut(|o: &mut $o| *o = $make(905)), want.map(|_| ()), "changing {name}");
            let res: Res<$o> = all.into();
            ensure_eq!(res.with(|o: &$o| $holds(o, 905)), want, "value of {name} once changed");
        }};
    }
    for_odd!(K, O => expect!(K, O, <O as Odd>::holds, <O as Odd>::make));
    expect!(ODD, Drops, |d: &Drops, v: u64| d.1 == v, |v: u64| Drops(drops.clone(), v));
    for_odd!(K, O => {
        let res: Res<O> = all.into();
        let want = chosen(K).then_some(true);
        ensure_eq!(res.read().try_deref().map(|o| <O as Odd>::holds(o, 905)), want, "{} in the end", std::any::type_name::<O>());
    });
    Ok(())
}

const EXTRAS: u64 = 40;
const KINDS: usize = 6;
type K0 = <Tag<0> as Twin>::T;
type K1 = u64;
type K2 = Box<u64>;
type K3 = String;
type K4 = Box<dyn Any>;
type K5 = <Tag<1> as Twin>::T;

/// Runs a macro-like body with the type of an index.
macro_rules! with_kind {
    ($k:expr, $t:ident => $body:expr) => {
        match $k % KINDS as u8 {
            0 => {
                type $t = K0;
                $body
            }
            1 => {
                type $t = K1;
                $body
            }
            2 => {
                type $t = K2;
                $body
            }
            3 => {
                type $t = K3;
                $body
            }
            4 => {
                type $t = K4;
                $body
            }
            _ => {
                type $t = K5;
                $body
            }
        }
    };
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Via {
    /// A handle made from the resources of the schema.
    Schema,
    /// A handle made from the resources reached through an open transaction.
    Context,
    /// A handle received by a trigger, kept for longer.
    Trigger,
    /// A handle kept since the last registration of the type.
    Kept,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Register(u8, u64),
    Read(u8, Via),
    Write(u8, Via, u64),
    Exists(u8, Via),
    /// Access to a group of resources, for reading or for writing the given values.
    Group { group: u8, write: Option<u64>, via: Via },
    /// A trigger accessing its target together with a resource.
    WithTarget { kind: u8, val: u64, write: bool, target: bool },
    /// Through the guards instead of within a scope.
    Guard(u8, Option<u64>),
    /// An access to one from within an access to another, or from within a reading one to the same.
    Nested { outer: (u8, Option<u64>, Via), inner: (u8, Option<u64>, Via) },
    /// A callback panics while it has access to this one, of which nothing is known until it is
    /// registered anew.
    Panic(u8, bool, Via),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub detached: bool,
    /// Further types of resource, registered before any of the others or after some of them.
    #[serde(default)]
    pub crowd: (u8, u8),
    /// Which types of uncommon shapes to have in a schema of their own, if any.
    #[serde(default)]
    pub odd: u32,
    /// Another world, with resources of the same types, accessed by turns: 0 for none, otherwise
    /// which of the types comes first.
    #[serde(default)]
    pub twin: u8,
    pub ops: Vec<ROp>,
}

/// Handles of every type.
struct Handles {
    h0: Res<K0>,
    h1: Res<K1>,
    h2: Res<K2>,
    h3: Res<K3>,
    h4: Res<K4>,
    h5: Res<K5>,
}

trait Pick<T> {
    fn pick(&self) -> &Res<T>;
}

macro_rules! impl_pick {
    ($($t:ty, $f:ident);*) => {
        $(impl Pick<$t> for Handles {
            fn pick(&self) -> &Res<$t> {
                &self.$f
            }
        })*
    };
}

impl_pick!(K0, h0; K1, h1; K2, h2; K3, h3; K4, h4; K5, h5);

impl From<&ResourceSet> for Handles {
    fn from(set: &ResourceSet) -> Self {
        Handles {
            h0: set.into(),
            h1: set.into(),
            h2: set.into(),
            h3: set.into(),
            h4: set.into(),
            h5: set.into(),
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched;

type Delivered = Rc<RefCell<Option<Handles>>>;
/// What the trigger given a target and a resource is to do, and what came of it.
type Errand = Rc<RefCell<Option<(u8, u64, bool, Option<(u64, u64)>, u32)>>>;

struct World {
    schema: Option<Schema<Node>>,
    set: Option<ResourceSet>,
    kept: Handles,
    delivered: Delivered,
    errand: Errand,
}

fn target_trigger<T: Kind>(errand: &Errand, target: Target<Node>, res: Res<T>) -> Result<()> {
    let mut slot = errand.borrow_mut();
    let Some((_, val, write, out, calls)) = slot.as_mut() else {
        return Ok(());
    };
    *out = if *write {
        (res, target).with_mut(|(r, t)| {
            *calls += 1;
            let old = (t.val, r.number());
            t.val = *val;
            r.set(*val + 1);
            old
        })
    } else {
        (target, res).with(|(t, r)| {
            *calls += 1;
            (t.val, r.number())
        })
    };
    Ok(())
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched0;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched1;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched2;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched3;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched4;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Sched5;

impl World {
    fn new(detached: bool) -> World {
        let delivered: Delivered = Default::default();
        let errand: Errand = Default::default();
        let mut schema = Schema::from(Graph::from_iter([Node { id: 1, val: 1 }]));
        let out = delivered.clone();
        schema = schema.with_trigger(
            Sched,
            move |_: Ctx<'_, Node>,
                  h5: Res<K5>,
                  h0: Res<K0>,
                  h1: Res<K1>,
                  h2: Res<K2>,
                  h3: Res<K3>,
                  h4: Res<K4>| {
                *out.borrow_mut() = Some(Handles {
                    h0,
                    h1,
                    h2,
                    h3,
                    h4,
                    h5,
                });
                Ok(())
            },
        );
        macro_rules! errands {
            ($($s:ident, $t:ty);*) => {
                $({
                    let errand = errand.clone();
                    schema = schema.with_trigger(
                        $s,
                        move |_: Ctx<'_, Node>, target: Target<Node>, res: Res<$t>| {
                            target_trigger(&errand, target, res)
                        },
                    );
                })*
            };
        }
        errands!(Sched0, K0; Sched1, K1; Sched2, K2; Sched3, K3; Sched4, K4; Sched5, K5);
        let kept = schema.resources().into();
        World {
            schema: Some(schema),
            set: detached.then(ResourceSet::default),
            kept,
            delivered,
            errand,
        }
    }

    fn schema(&self) -> &Schema<Node> {
        self.schema.as_ref().expect("schema")
    }

    fn resources(&self) -> &ResourceSet {
        match &self.set {
            Some(set) => set,
            None => self.schema().resources(),
        }
    }

    fn register(&mut self, kind: u8, val: u64) {
        if let Some(set) = self.set.take() {
            self.set = Some(with_kind!(kind, T => set.with_resource(<T as Kind>::make(val))));
        } else {
            let schema = self.schema.take().expect("schema");
            self.schema =
                Some(with_kind!(kind, T => schema.with_resource(<T as Kind>::make(val))));
        }
        // Handles made earlier keep the value they were made for: only those made from now on,
        // for any type, are handles to what the schema holds now.
        match kind % KINDS as u8 {
            0 => self.kept.h0 = self.resources().into(),
            1 => self.kept.h1 = self.resources().into(),
            2 => self.kept.h2 = self.resources().into(),
            3 => self.kept.h3 = self.resources().into(),
            4 => self.kept.h4 = self.resources().into(),
            _ => self.kept.h5 = self.resources().into(),
        }
    }

    fn register_extras(&mut self, n: u8) {
        for_extras!(K => if K < u64::from(n) {
            if let Some(set) = self.set.take() {
                self.set = Some(set.with_resource(Extra::<K>(7000 + K)));
            } else {
                let schema = self.schema.take().expect("schema");
                self.schema = Some(schema.with_resource(Extra::<K>(7000 + K)));
            }
        });
    }

    /// Every further type is there, or not, with a value of its own that can be changed.
    fn extras_agree(&self, n: u8) -> R {
        let set = self.resources();
        for_extras!(K => {
            let res: Res<Extra<K>> = set.into();
            let want = (K < u64::from(n)).then_some(7000 + K);
            ensure_eq!(res.with(|e: &Extra<K>| e.0), want, "further resource {K}");
            ensure_eq!(res.exists(), want.is_some(), "further resource {K} exists");
            ensure_eq!(res.with_mut(|e: &mut Extra<K>| { e.0 += 100; e.0 }), want.map(|v| v + 100), "changing further resource {K}");
        });
        for_extras!(K => {
            let res: Res<Extra<K>> = set.into();
            let want = (K < u64::from(n)).then_some(7100 + K);
            ensure_eq!(res.read().try_deref().map(|e| e.0), want, "further resource {K} once changed");
        });
        Ok(())
    }

    fn using<T>(&self, via: Via, f: impl FnOnce(&Handles) -> T) -> T {
        // A detached set is not reached by any transaction.
        let via = if self.set.is_some() && via != Via::Kept { Via::Schema } else { via };
        match via {
            Via::Kept => f(&self.kept),
            Via::Schema => f(&Handles::from(self.resources())),
            Via::Context => {
                let mut handles = None;
                let _ = self.schema().transaction().with(|ctx| {
                    handles = ctx.transaction().with(|ctx| Ok(Handles {
                        h0: Res::from(&ctx),
                        h1: Res::from(&ctx),
                        h2: Res::from(&ctx),
                        h3: ctx.resources().into(),
                        h4: ctx.resources().into(),
                        h5: ctx.resources().into(),
                    })).ok();
                    Ok(())
                });
                f(&handles.expect("handles"))
            }
            Via::Trigger => {
                self.schema()
                    .transaction()
                    .with(|ctx| ctx.triggers().select(Sched).execute(&ctx))
                    .expect("trigger");
                let handles = self.delivered.borrow_mut().take().expect("delivered");
                f(&handles)
            }
        }
    }
}

type Values = [Option<u64>; KINDS];

/// Groups accessed, by the indices of their types.
macro_rules! groups {
    ($handles:expr, $group:expr, $write:expr, $calls:expr; $([$($i:tt $t:ty, $v:ident);*]),* $(,)?) => {{
        let mut _n = 0u8;
        let mut out: Option<(Vec<usize>, Option<Vec<u64>>)> = None;
        $(
            if out.is_none() && $group == _n {
                let wanted = vec![$($i),*];
                out = Some((wanted, match $write {
                    None => {
                        let group = ($(Fwd(<Handles as Pick<$t>>::pick($handles)),)*);
                        group.with(|($($v,)*)| {
                            $calls.set($calls.get() + 1);
                            vec![$($v.number()),*]
                        })
                    }
                    Some(base) => {
                        let group = ($(Fwd(<Handles as Pick<$t>>::pick($handles)),)*);
                        group.with_mut(|($($v,)*)| {
                            $calls.set($calls.get() + 1);
                            let old = vec![$($v.number()),*];
                            $($v.set(base + $i);)*
                            old
                        })
                    }
                }));
            }
            _n += 1;
        )*
        out
    }};
}

/// Lends a handle to a group, which takes its members by value.
struct Fwd<'h, T>(&'h Res<T>);

impl<T: 'static> ReadOnly for Fwd<'_, T> {
    type Target = T;
    type Guard<'a>
        = <Res<T> as ReadOnly>::Guard<'a>
    where
        Self: 'a;

    fn read(&self) -> Self::Guard<'_> {
        self.0.read()
    }
}

impl<T: 'static> ReadWrite for Fwd<'_, T> {
    type Target = T;
    type Guard<'a>
        = <Res<T> as ReadWrite>::Guard<'a>
    where
        Self: 'a;

    fn write(&self) -> Self::Guard<'_> {
        self.0.write()
    }
}

const GROUPS: u8 = 18;

/// The types of each group.
const MEMBERS: [&[usize]; GROUPS as usize] = [
    &[0, 1],
    &[1, 0],
    &[2, 5],
    &[4, 3],
    &[5, 0],
    &[0, 1, 2],
    &[5, 3, 1],
    &[2, 4, 0],
    &[0, 1, 2, 3],
    &[5, 4, 3, 2],
    &[3, 0, 5, 1],
    &[0, 1, 2, 3, 4],
    &[5, 4, 3, 2, 1],
    &[2, 0, 4, 1, 5],
    &[0, 1, 2, 3, 4, 5],
    &[5, 4, 3, 2, 1, 0],
    &[3, 1, 5, 0, 4, 2],
    &[4, 5, 0, 2, 1, 3],
];

#[allow(unused_assignments)]
fn group(
    h: &Handles,
    group: u8,
    write: Option<u64>,
    calls: &Cell<u32>,
) -> (Vec<usize>, Option<Vec<u64>>) {
    groups!(h, group % GROUPS, write, calls;
        [0 K0, a; 1 K1, b],
        [1 K1, a; 0 K0, b],
        [2 K2, a; 5 K5, b],
        [4 K4, a; 3 K3, b],
        [5 K5, a; 0 K0, b],
        [0 K0, a; 1 K1, b; 2 K2, c],
        [5 K5, a; 3 K3, b; 1 K1, c],
        [2 K2, a; 4 K4, b; 0 K0, c],
        [0 K0, a; 1 K1, b; 2 K2, c; 3 K3, d],
        [5 K5, a; 4 K4, b; 3 K3, c; 2 K2, d],
        [3 K3, a; 0 K0, b; 5 K5, c; 1 K1, d],
        [0 K0, a; 1 K1, b; 2 K2, c; 3 K3, d; 4 K4, e],
        [5 K5, a; 4 K4, b; 3 K3, c; 2 K2, d; 1 K1, e],
        [2 K2, a; 0 K0, b; 4 K4, c; 1 K1, d; 5 K5, e],
        [0 K0, a; 1 K1, b; 2 K2, c; 3 K3, d; 4 K4, e; 5 K5, f],
        [5 K5, a; 4 K4, b; 3 K3, c; 2 K2, d; 1 K1, e; 0 K0, f],
        [3 K3, a; 1 K1, b; 5 K5, c; 0 K0, d; 4 K4, e; 2 K2, f],
        [4 K4, a; 5 K5, b; 0 K0, c; 2 K2, d; 1 K1, e; 3 K3, f],
    )
    .expect("group")
}

fn agree(world: &World, values: &Values, lost: &[bool; KINDS], at: &str) -> R {
    for via in [Via::Schema, Via::Kept] {
        let mut got: Values = world.using(via, |h| {
            [
                h.h0.with(|v: &K0| v.number()),
                h.h1.with(|v: &K1| v.number()),
                h.h2.with(|v: &K2| v.number()),
                h.h3.with(|v: &K3| v.number()),
                h.h4.with(|v: &K4| v.number()),
                h.h5.with(|v: &K5| v.number()),
            ]
        });
        for k in 0..KINDS {
            if lost[k] {
                got[k] = values[k];
            }
        }
        ensure_eq!(got, *values, "{at}: resources by {via:?} handles");
    }
    Ok(())
}

/// A world besides the one of the case, whose resources have the same types and other values.
struct Other {
    world: World,
    values: Values,
    first: u8,
}

impl Other {
    fn new(first: u8) -> Other {
        Other {
            world: World::new(usize::from(first) >= KINDS),
            values: [None; KINDS],
            first,
        }
    }

    fn register(&mut self, kind: u8, val: u64) {
        self.world.register(kind, val);
        self.values[usize::from(kind) % KINDS] = Some(val);
    }

    /// Accesses every resource, one after another, beginning with a different one each time.
    fn turn(&mut self, i: usize) -> R {
        for k in (0..KINDS).map(|k| (k + i + usize::from(self.first)) % KINDS) {
            let write = (k + i) % 4 == 0;
            let next = self.values[k].map(|v| v + 1);
            let got = with_kind!(k as u8, T => {
                let handle = Res::<T>::from(self.world.resources());
                match (write, next) {
                    (true, Some(x)) => handle.with_mut(|v: &mut T| {
                        let old = v.number();
                        v.set(x);
                        old
                    }),
                    _ => handle.with(|v: &T| v.number()),
                }
            });
            ensure_eq!(got, self.values[k], "before op {i}: resource {k} of the other world");
            if write {
                self.values[k] = next;
            }
        }
        Ok(())
    }
}

/// One access, reading or writing; during it, whatever `f` does.
fn access(world: &World, (kind, write, via): (u8, Option<u64>, Via), mut f: impl FnMut()) -> (Option<u64>, u32) {
    let mut calls = 0;
    let got = world.using(via, |h| {
        with_kind!(kind, T => {
            let handle = Pick::<T>::pick(h);
            match write {
                None => handle.with(|v: &T| {
                    calls += 1;
                    f();
                    v.number()
                }),
                Some(x) => handle.with_mut(|v: &mut T| {
                    calls += 1;
                    let old = v.number();
                    v.set(x);
                    f();
                    if v.number() == x { old } else { u64::MAX }
                }),
            }
        })
    });
    (got, calls)
}

struct Interrupted;

pub struct S07;

impl Prop for S07 {
    type Case = Case;

    const ID: &'static str = "S07";
    const RULE: &'static str = "histories of registrations (with repetitions) of six types of resource (now and then up to forty more), boxed and type-erased ones among them, and accesses by handles from the schema, an open transaction, a trigger or kept from earlier: single, guarded, one within another, in eighteen groups of two to six, and together with a trigger's target; values, results and callback counts compared with a table; non-trivial: a mutation seen through another handle, and an access to a missing type or a group with a missing member";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "no group names one type twice, and nothing is known of a resource whose callback panicked",
        "handles made before their type was registered anew are not handles to the new value",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let via = prop_oneof![
            Just(Via::Schema),
            Just(Via::Context),
            Just(Via::Trigger),
            Just(Via::Kept)
        ];
        let kind = 0..KINDS as u8;
        let access = |n: u64| (kind.clone(), proptest::option::of(n..n + 100), via.clone());
        let op = prop_oneof![
            4 => (kind.clone(), 0u64..100).prop_map(|(k, v)| ROp::Register(k, v)),
            2 => (kind.clone(), via.clone()).prop_map(|(k, v)| ROp::Read(k, v)),
            3 => (kind.clone(), via.clone(), 0u64..100).prop_map(|(k, v, x)| ROp::Write(k, v, x)),
            1 => (kind.clone(), via.clone()).prop_map(|(k, v)| ROp::Exists(k, v)),
            6 => (0..GROUPS, proptest::option::of(100u64..200), via.clone())
                .prop_map(|(group, write, via)| ROp::Group { group, write, via }),
            2 => (kind.clone(), 200u64..300, any::<bool>(), prop::bool::weighted(0.8))
                .prop_map(|(kind, val, write, target)| ROp::WithTarget { kind, val, write, target }),
            1 => (kind.clone(), proptest::option::of(300u64..400)).prop_map(|(k, v)| ROp::Guard(k, v)),
            2 => (access(400), access(500)).prop_map(|(outer, inner)| ROp::Nested { outer, inner }),
        ];
        let op = prop_oneof![
            60 => op,
            1 => (kind, any::<bool>(), via).prop_map(|(k, write, via)| ROp::Panic(k, write, via)),
        ];
        // All types registered up front in half of the cases, so that large groups are complete.
        let crowd = prop_oneof![24 => Just((0, 0)), 1 => (1..=EXTRAS as u8, 0u8..12)];
        let odd = prop_oneof![24 => Just(0), 1 => 1u32..1 << (ODD + 1)];
        let twin = prop_oneof![5 => Just(0), 1 => 1..=2 * KINDS as u8];
        (prop::bool::weighted(0.2), any::<bool>(), vec(op, 0..24), crowd, odd, twin)
            .prop_map(|(detached, full, mut ops, crowd, odd, twin)| {
                if full {
                    for k in 0..KINDS as u8 {
                        ops.insert(0, ROp::Register(k, u64::from(k) + 900));
                    }
                }
                Case { detached, crowd, odd, twin, ops }
            })
            .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(2_400_000, 15_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        if case.odd > 0 {
            odd_ones(case.odd, case.detached)?;
            obs.label("types of uncommon shapes");
        }
        let mut world = World::new(case.detached);
        let mut values: Values = [None; KINDS];
        let mut lost = [false; KINDS];
        let (mut missed, mut mutated, mut replaced) = (false, false, false);
        let (mut nested, mut interrupted) = (false, false);
        agree(&world, &values, &lost, "at first")?;
        let mut other = (case.twin > 0).then(|| Other::new(case.twin - 1));

        let (crowd, when) = (case.crowd.0.min(EXTRAS as u8), usize::from(case.crowd.1).min(case.ops.len()));
        for (i, op) in case.ops.iter().enumerate() {
            crate::runner::meanwhile();
            if i == when && crowd > 0 {
                world.register_extras(crowd);
            }
            if let Some(other) = &mut other {
                other.turn(i)?;
            }
            // What a lost resource yields is anybody's guess.
            let concerned = match op {
                ROp::Register(..) => vec![],
                ROp::Read(k, _) | ROp::Write(k, ..) | ROp::Exists(k, _) | ROp::Guard(k, _) => vec![*k],
                ROp::Panic(k, ..) => vec![*k],
                ROp::WithTarget { kind, .. } => vec![*kind],
                ROp::Group { group, .. } => MEMBERS[usize::from(*group % GROUPS)].iter().map(|k| *k as u8).collect(),
                ROp::Nested { outer, inner } => vec![outer.0, inner.0],
            };
            if concerned.iter().any(|k| lost[usize::from(*k) % KINDS]) {
                continue;
            }
            match op {
                ROp::Nested { outer, inner } => {
                    let (a, b) = (usize::from(outer.0) % KINDS, usize::from(inner.0) % KINDS);
                    let inner = match a == b && outer.1.is_some() {
                        true => ((b as u8 + 1) % KINDS as u8, inner.1, inner.2),
                        false if a == b => (inner.0, None, inner.2),
                        false => *inner,
                    };
                    let b = usize::from(inner.0) % KINDS;
                    if lost[b] {
                        continue;
                    }
                    let mut within = None;
                    let (got, calls) = access(&world, *outer, || {
                        let exist = world.using(inner.2, |h| {
                            [0, 1, 2, 3, 4, 5].map(|k: usize| {
                                (k != a || outer.1.is_none())
                                    .then(|| with_kind!(k as u8, T => Pick::<T>::pick(h).exists()))
                            })
                        });
                        within = Some((exist, access(&world, inner, || ())));
                    });
                    ensure_eq!(got, values[a], "op {i}: {op:?}, the outer one");
                    ensure_eq!(calls, u32::from(values[a].is_some()), "op {i}: callbacks of {op:?}");
                    missed |= values[a].is_none();
                    let Some((exist, got)) = within else { continue };
                    for k in 0..KINDS {
                        ensure!(
                            lost[k] || exist[k].is_none_or(|e| e == values[k].is_some()),
                            "op {i}: {op:?}: meanwhile, resource {k} of {values:?} exists: {exist:?}"
                        );
                    }
                    if let Some(x) = outer.1 {
                        values[a] = Some(x);
                        mutated = true;
                    }
                    ensure_eq!(
                        got,
                        (values[b], u32::from(values[b].is_some())),
                        "op {i}: {op:?}, the inner one"
                    );
                    if let (Some(x), Some(_)) = (inner.1, values[b]) {
                        values[b] = Some(x);
                    }
                    missed |= values[b].is_none();
                    nested = true;
                }
                ROp::Panic(k, write, via) => {
                    let result = catch_unwind(AssertUnwindSafe(|| {
                        access(&world, (*k, write.then_some(1), *via), || panic_any(Interrupted))
                    }));
                    let k = usize::from(*k) % KINDS;
                    match result {
                        Ok(got) => ensure!(
                            values[k].is_none() && got == (None, 0),
                            "op {i}: {op:?}: {got:?} without running the callback"
                        ),
                        Err(p) if !p.is::<Interrupted>() => resume_unwind(p),
                        Err(_) => {
                            ensure!(values[k].is_some(), "op {i}: {op:?}: callback runs");
                            lost[k] = true;
                            interrupted = true;
                        }
                    }
                }
                ROp::Register(k, v) => {
                    world.register(*k, *v);
                    if let Some(other) = &mut other {
                        other.register(*k, *v + 7_000);
                    }
                    lost[usize::from(*k) % KINDS] = false;
                    let slot = &mut values[usize::from(*k) % KINDS];
                    replaced |= slot.is_some();
                    *slot = Some(*v);
                }
                ROp::Read(k, via) => {
                    let want = values[usize::from(*k) % KINDS];
                    let mut calls = 0;
                    let got = world.using(*via, |h| {
                        with_kind!(*k, T => Pick::<T>::pick(h).with(|v: &T| {
                            calls += 1;
                            v.number()
                        }))
                    });
                    ensure_eq!(got, want, "op {i}: {op:?}");
                    ensure_eq!(calls, u32::from(want.is_some()), "op {i}: callbacks of {op:?}");
                    missed |= want.is_none();
                }
                ROp::Write(k, via, x) => {
                    let slot = &mut values[usize::from(*k) % KINDS];
                    let mut calls = 0;
                    let got = world.using(*via, |h| {
                        with_kind!(*k, T => Pick::<T>::pick(h).with_mut(|v: &mut T| {
                            calls += 1;
                            let old = v.number();
                            v.set(*x);
                            old
                        }))
                    });
                    ensure_eq!(got, *slot, "op {i}: {op:?}");
                    ensure_eq!(calls, u32::from(slot.is_some()), "op {i}: callbacks of {op:?}");
                    missed |= slot.is_none();
                    if slot.is_some() {
                        *slot = Some(*x);
                        mutated = true;
                    }
                }
                ROp::Exists(k, via) => {
                    let got =
                        world.using(*via, |h| with_kind!(*k, T => Pick::<T>::pick(h).exists()));
                    ensure_eq!(got, values[usize::from(*k) % KINDS].is_some(), "op {i}: {op:?}");
                }
                ROp::Guard(k, write) => {
                    let slot = &mut values[usize::from(*k) % KINDS];
                    let got = world.using(Via::Kept, |h| {
                        with_kind!(*k, T => match write {
                            None => Pick::<T>::pick(h).read().try_deref().map(Kind::number),
                            Some(x) => {
                                let mut guard = Pick::<T>::pick(h).write();
                                let seen = guard.try_deref().map(Kind::number);
                                let old = guard.try_deref_mut().map(|v| {
                                    let old = v.number();
                                    v.set(*x);
                                    old
                                });
                                if seen == old { old } else { Some(u64::MAX) }
                            }
                        })
                    });
                    ensure_eq!(got, *slot, "op {i}: {op:?}");
                    if let (Some(x), Some(_)) = (write, *slot) {
                        *slot = Some(*x);
                    }
                }
                ROp::Group {
                    group: g,
                    write,
                    via,
                } => {
                    let calls = Cell::new(0);
                    let (members, got) = world.using(*via, |h| group(h, *g, *write, &calls));
                    let want: Option<Vec<u64>> = members.iter().map(|k| values[*k]).collect();
                    ensure_eq!(got, want, "op {i}: {op:?} of {members:?}");
                    ensure_eq!(
                        calls.get(),
                        u32::from(want.is_some()),
                        "op {i}: callbacks of {op:?}"
                    );
                    missed |= want.is_none();
                    obs.label_if(members.len() >= 4 && want.is_some(), "complete groups of four or more");
                    obs.label_if(
                        want.is_none() && members.iter().any(|k| values[*k].is_some()),
                        "groups partly missing",
                    );
                    if let (Some(base), true) = (write, want.is_some()) {
                        for k in members {
                            values[k] = Some(base + k as u64);
                        }
                        mutated = true;
                    }
                }
                ROp::WithTarget {
                    kind,
                    val,
                    write,
                    target,
                } => {
                    if case.detached {
                        continue;
                    }
                    let k = usize::from(*kind) % KINDS;
                    let want = match (target, values[k]) {
                        (true, Some(v)) => Some((555, v)),
                        _ => None,
                    };
                    *world.errand.borrow_mut() = Some((*kind, *val, *write, None, 0));
                    let mut after = None;
                    world
                        .schema()
                        .transaction()
                        .with(|ctx| {
                            let ctx = if *target {
                                ctx.with_target(Node { id: 9, val: 555 })
                            } else {
                                ctx
                            };
                            let t = ctx.triggers();
                            let r = match k {
                                0 => t.select(Sched0).execute(&ctx),
                                1 => t.select(Sched1).execute(&ctx),
                                2 => t.select(Sched2).execute(&ctx),
                                3 => t.select(Sched3).execute(&ctx),
                                4 => t.select(Sched4).execute(&ctx),
                                _ => t.select(Sched5).execute(&ctx),
                            };
                            after = ctx.target().with(|n: &Node| (n.id, n.val));
                            r
                        })
                        .map_err(|e| format!("op {i}: {op:?}: {e}"))?;
                    let (_, _, _, got, calls) = world.errand.borrow_mut().take().expect("errand");
                    ensure_eq!(got, want, "op {i}: {op:?}");
                    ensure_eq!(calls, u32::from(want.is_some()), "op {i}: callbacks of {op:?}");
                    let wrote = *write && want.is_some();
                    ensure_eq!(
                        after,
                        target.then_some((9, if wrote { *val } else { 555 })),
                        "op {i}: target after {op:?}"
                    );
                    if wrote {
                        values[k] = Some(*val + 1);
                        mutated = true;
                    }
                    missed |= want.is_none();
                }
            }
            if let Some(other) = &mut other {
                other.turn(i + 1)?;
            }
            agree(&world, &values, &lost, &format!("after op {i} {op:?}"))?;
        }
        if let Some(other) = &other {
            agree(&other.world, &other.values, &[false; KINDS], "the other world, in the end")?;
            obs.label("two worlds by turns");
        }
        if crowd > 0 {
            if when == case.ops.len() {
                world.register_extras(crowd);
            }
            world.extras_agree(crowd)?;
            agree(&world, &values, &lost, "in the end")?;
        }
        ensure!(
            world.schema().read().into_iter().count() == 1,
            "accessing resources changed the graph"
        );

        obs.nontrivial(missed && mutated);
        obs.label_if(missed, "missing resources");
        obs.label_if(mutated, "mutations");
        obs.label_if(nested, "accesses within accesses");
        obs.label_if(interrupted, "resources lost to a panic");
        obs.label_if(replaced, "types registered anew");
        obs.label_if(crowd > 10, "more than sixteen types");
        Ok(())
    }
}
