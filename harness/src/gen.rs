//! Strategies for engine programs.

use proptest::{
    collection::vec,
    prelude::*,
    strategy::{BoxedStrategy, Union},
};

use crate::engine::{Act, Case, Cleanup, End, HAct, Hook, Id, On, Reg, Step, N_RES, N_SCHED};

/// Shape of the programs to generate.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    /// Number of distinct identifiers.
    pub ids: Id,
    /// Nested transactions and siblings, up to this depth.
    pub depth: u32,
    /// Longest body.
    pub len: usize,
    /// Save / delete operations and trigger runs.
    pub ops: bool,
    pub panics: bool,
    /// Hooks, at most.
    pub hooks: usize,
    pub steps: usize,
    /// Number of initial nodes, at most.
    pub init: usize,
    /// Weight of failing ends among all ends.
    pub fails: u32,
    /// Longest run of writes without a look in between (0: none).
    pub burst: u16,
}

fn id(s: Shape) -> BoxedStrategy<Id> {
    // Boundary identifiers are as likely as any other.
    (0..s.ids)
        .prop_map(move |i| if s.ids > 3 && i == s.ids - 1 { Id::MAX - 1 } else { i })
        .boxed()
}

fn val() -> BoxedStrategy<u32> {
    prop_oneof![8 => 0u32..20, 1 => Just(u32::MAX), 1 => any::<u32>()].boxed()
}

fn end(s: Shape) -> BoxedStrategy<End> {
    let mut options: Vec<(u32, BoxedStrategy<End>)> = vec![
        (6, (0u32..9).prop_map(End::Ok).boxed()),
        (1, (0u32..9).prop_map(End::Forget).boxed()),
    ];
    if s.fails > 0 {
        options.push((s.fails, "[a-z{}%]{0,4}".prop_map(End::Fail).boxed()));
        options.push((s.fails, Just(End::Noop).boxed()));
    }
    if s.panics {
        options.push((1, (0u32..9).prop_map(End::Panic).boxed()));
    }
    Union::new_weighted(options).boxed()
}

fn on(s: Shape) -> BoxedStrategy<On> {
    if s.panics {
        (prop::bool::weighted(0.8), prop::bool::weighted(0.7))
            .prop_map(|(swallow, contain)| On { swallow, contain })
            .boxed()
    } else {
        prop::bool::weighted(0.8)
            .prop_map(|swallow| On {
                swallow,
                contain: false,
            })
            .boxed()
    }
}

fn cleanup(s: Shape) -> BoxedStrategy<Cleanup> {
    if !s.panics {
        return Just(None).boxed();
    }
    proptest::option::weighted(0.15, (id(s), proptest::option::weighted(0.7, val()))).boxed()
}

fn act(s: Shape, depth: u32) -> BoxedStrategy<Act> {
    let mut options: Vec<(u32, BoxedStrategy<Act>)> = vec![
        (8, (id(s), val()).prop_map(|(id, val)| Act::Save { id, val }).boxed()),
        (5, id(s).prop_map(|id| Act::Delete { id }).boxed()),
    ];
    if s.burst > 0 {
        options.push((
            3,
            (id(s), 0u8..4, 1..s.burst, val())
                .prop_map(|(first, step, n, val)| Act::Burst { first, step, n, val })
                .boxed(),
        ));
    }
    if s.ops {
        options.push((
            4,
            (id(s), val(), on(s))
                .prop_map(|(id, val, on)| Act::OpSave { id, val, on })
                .boxed(),
        ));
        options.push((4, (id(s), on(s)).prop_map(|(id, on)| Act::OpDelete { id, on }).boxed()));
        options.push((
            1,
            (0..N_SCHED, on(s)).prop_map(|(sched, on)| Act::Run { sched, on }).boxed(),
        ));
    }
    if s.panics {
        options.push((1, (0u32..9).prop_map(Act::Panic).boxed()));
        options.push((1, id(s).prop_map(|id| Act::BadLookup { id }).boxed()));
    }
    if s.depth > 0 {
        options.push((
            2,
            (1u8..4, id(s), proptest::option::of(val()))
                .prop_map(|(up, id, val)| Act::Outer { up, id, val })
                .boxed(),
        ));
    }
    if depth > 0 {
        let inner = act(s, depth - 1);
        options.push((
            5,
            (vec(inner.clone(), 0..=s.len.min(6)), end(s), on(s), cleanup(s))
                .prop_map(|(body, end, on, cleanup)| Act::Sub {
                    body,
                    end,
                    on,
                    cleanup,
                })
                .boxed(),
        ));
        options.push((
            2,
            (
                1u8..4,
                vec((0u8..4, inner), 0..=s.len.min(7)),
                vec((0u8..3, end(s)), 0..4),
            )
                .prop_map(|(n, steps, ends)| Act::Siblings { n, steps, ends })
                .boxed(),
        ));
    }
    Union::new_weighted(options).boxed()
}

pub fn acts(s: Shape) -> BoxedStrategy<Vec<Act>> {
    let len = s.len;
    vec(act(s, s.depth), 0..=len).boxed()
}

fn step(s: Shape) -> BoxedStrategy<Step> {
    let run = (acts(s), end(s));
    let mut options: Vec<(u32, BoxedStrategy<Step>)> = vec![
        (
            8,
            (run.clone(), cleanup(s))
                .prop_map(|((body, end), cleanup)| Step::Tx { body, end, cleanup })
                .boxed(),
        ),
        (
            1,
            (acts(s), acts(s), proptest::option::weighted(0.7, run.clone()))
                .prop_map(|(first, second, run)| Step::Pre { first, second, run })
                .boxed(),
        ),
        (
            1,
            vec(proptest::option::weighted(0.8, run), 1..4).prop_map(Step::Batch).boxed(),
        ),
        (
            1,
            vec((id(s), proptest::option::weighted(0.6, val())), 0..4)
                .prop_map(Step::Direct)
                .boxed(),
        ),
    ];
    if s.ops {
        options.push((3, (id(s), val()).prop_map(|(id, val)| Step::OpSave { id, val }).boxed()));
        options.push((3, id(s).prop_map(|id| Step::OpDelete { id }).boxed()));
        options.push((1, (0..N_SCHED).prop_map(|sched| Step::Run { sched }).boxed()));
    }
    Union::new_weighted(options).boxed()
}

/// Hooks of the given schedules (indices), weighted towards them.
fn hook(s: Shape, scheds: &'static [u8]) -> BoxedStrategy<Hook> {
    let inner = Shape {
        len: s.len.min(3),
        depth: s.depth.min(1),
        ..s
    };
    let hact = prop_oneof![
        3 => (proptest::option::of(val()), proptest::option::weighted(0.3, id(s)))
            .prop_map(|(val, id)| HAct::MutTarget { val, id }),
        1 => Just(HAct::Keep),
        1 => (any::<u8>(), proptest::option::of(val()), proptest::option::weighted(0.3, id(s)))
            .prop_map(|(which, val, id)| HAct::MutKept { which, val, id }),
        2 => (0u8..5, 1u32..5).prop_map(|(res, by)| HAct::Bump { res, by }),
        4 => (acts(inner), end(inner), on(s))
            .prop_map(|(body, end, on)| HAct::Sub { body, end, on }),
    ];
    let hend = if s.fails > 0 {
        let mut options: Vec<(u32, BoxedStrategy<End>)> = vec![
            (12, Just(End::Ok(0)).boxed()),
            (1, "[a-z]{1,4}".prop_map(End::Fail).boxed()),
            (1, Just(End::Noop).boxed()),
        ];
        if s.panics {
            options.push((1, (0u32..9).prop_map(End::Panic).boxed()));
        }
        Union::new_weighted(options).boxed()
    } else {
        Just(End::Ok(0)).boxed()
    };
    let sched = prop_oneof![4 => proptest::sample::select(scheds), 1 => 0..N_SCHED];
    (
        sched,
        0u8..9,
        proptest::option::weighted(0.4, id(s)),
        vec(hact, 0..4),
        hend,
    )
        .prop_map(|(sched, arity, only, acts, end)| Hook {
            sched,
            arity,
            only,
            acts,
            end,
        })
        .boxed()
}

fn reg(s: Shape, scheds: &'static [u8], plugins: u32) -> BoxedStrategy<Reg> {
    let leaf: BoxedStrategy<Reg> = prop_oneof![
        2 => (0..N_RES, 0u32..50).prop_map(|(k, v)| Reg::Res(k, v)),
        3 => hook(s, scheds).prop_map(Reg::Hook),
        1 => (0u8..3).prop_map(Reg::Plain),
    ]
    .boxed();
    if plugins == 0 {
        return leaf;
    }
    let inner = reg(s, scheds, plugins - 1);
    prop_oneof![
        3 => leaf,
        2 => vec(inner, 0..4).prop_map(Reg::Plugin),
    ]
    .boxed()
}

pub fn case(s: Shape, scheds: &'static [u8], plugins: u32) -> BoxedStrategy<Case> {
    let init = vec((id(s), val()), 0..=s.init);
    let build: BoxedStrategy<Vec<Reg>> = if s.hooks == 0 {
        Just(Vec::new()).boxed()
    } else {
        vec(reg(s, scheds, plugins), 0..=s.hooks).boxed()
    };
    (init, build, vec(step(s), 1..=s.steps))
        .prop_map(|(init, build, steps)| Case {
            init,
            build,
            steps,
            deep: 0,
        })
        .boxed()
}

/// Programs whose hooks lead to hooks that lead to hooks, further than others do.
pub fn cascade(s: Shape, scheds: &'static [u8]) -> BoxedStrategy<Case> {
    let s = Shape {
        hooks: 2,
        steps: 2,
        depth: 0,
        len: 2,
        ..s
    };
    // Some hook always goes on.
    let on = On {
        swallow: true,
        contain: false,
    };
    let more = (proptest::sample::select(scheds), id(s), val(), any::<bool>(), any::<bool>(), prop::bool::weighted(0.3))
        .prop_map(move |(sched, id, val, save, swallow, fails)| {
            let on = On { swallow, ..on };
            let act = if save { Act::OpSave { id, val, on } } else { Act::OpDelete { id, on } };
            let end = if fails { End::Noop } else { End::Ok(0) };
            Reg::Hook(Hook {
                sched,
                arity: 1,
                only: None,
                acts: vec![HAct::Sub { body: vec![act], end, on }],
                end: End::Ok(0),
            })
        });
    (case(s, scheds, 0), vec(more, 1..3), 1u8..60)
        .prop_map(|(case, more, deep)| {
            let mut build = case.build;
            build.extend(more);
            Case { build, deep, ..case }
        })
        .boxed()
}
