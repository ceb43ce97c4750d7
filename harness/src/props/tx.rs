//! Properties decided by comparing programs run by the real schema and by the model.

use proptest::{prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    engine::{self, Act, Case, End, Ev, HAct, Outcome, Reg, Step},
    ensure,
    gen::{self, Shape},
    runner::{Obs, Prop, Tier, R},
};

const SMALL: Shape = Shape {
    ids: 5,
    depth: 0,
    len: 6,
    ops: false,
    panics: false,
    hooks: 0,
    steps: 4,
    init: 5,
    fails: 1,
    burst: 0,
};

/// What a case did, as read from the model's log and the case itself.
#[derive(Default)]
struct Traits {
    commits: usize,
    aborts: usize,
    panics: usize,
    nested_ok: usize,
    nested_err: usize,
    hooks: usize,
    hook_depth: usize,
    op_save_ok: usize,
    op_save_err: usize,
    op_del_ok: usize,
    op_del_noop: usize,
    op_del_err: usize,
    siblings: usize,
    overwrites: bool,
    max_nesting: usize,
}

fn writes(acts: &[Act], out: &mut Vec<(u16, bool)>) {
    for act in acts {
        match act {
            Act::Save { id, .. } => out.push((*id, true)),
            Act::Delete { id } => out.push((*id, false)),
            Act::Burst { first, step, n, val } => {
                out.extend(engine::burst(*first, *step, *n, *val).map(|(id, val)| (id, val.is_some())))
            }
            Act::Outer { id, val, .. } => out.push((*id, val.is_some())),
            Act::Sub { body, .. } => writes(body, out),
            Act::Siblings { steps, .. } => {
                for (_, a) in steps {
                    writes(std::slice::from_ref(a), out);
                }
            }
            _ => {}
        }
    }
}

fn nesting(acts: &[Act]) -> usize {
    acts.iter()
        .map(|a| match a {
            Act::Sub { body, .. } => 1 + nesting(body),
            Act::Siblings { steps, .. } => {
                1 + steps
                    .iter()
                    .map(|(_, a)| nesting(std::slice::from_ref(a)))
                    .max()
                    .unwrap_or(0)
            }
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

fn traits(case: &Case, log: &[Ev]) -> Traits {
    let mut t = Traits::default();
    for ev in log {
        match ev {
            Ev::Out(what, out) => {
                if matches!(out, Outcome::Panic(_)) {
                    t.panics += 1;
                }
                let ok = matches!(out, Outcome::Ok(_));
                match *what {
                    "tx" | "batch" | "pre" if ok => t.commits += 1,
                    "tx" | "batch" | "pre" => t.aborts += 1,
                    "sub" | "sibling end" | "hook sub" if ok => t.nested_ok += 1,
                    "sub" | "sibling end" | "hook sub" => t.nested_err += 1,
                    "op save" | "top save" if ok => t.op_save_ok += 1,
                    "op save" | "top save" => t.op_save_err += 1,
                    "op delete" | "top delete" if ok => t.op_del_ok += 1,
                    "op delete" | "top delete" if *out == Outcome::Noop => t.op_del_noop += 1,
                    "op delete" | "top delete" => t.op_del_err += 1,
                    _ => {}
                }
            }
            Ev::Hook { .. } => t.hooks += 1,
            Ev::View("sibling", _) => t.siblings += 1,
            Ev::View(_, levels) => t.max_nesting = t.max_nesting.max(levels.len()),
            _ => {}
        }
    }
    for step in &case.steps {
        if let Step::Tx { body, .. } = step {
            let mut w = Vec::new();
            writes(body, &mut w);
            let mut seen = std::collections::BTreeSet::new();
            t.overwrites |= w.iter().any(|(id, _)| !seen.insert(*id));
            t.max_nesting = t.max_nesting.max(1 + nesting(body));
        }
    }
    fn hook_nest(r: &[Reg]) -> usize {
        r.iter()
            .map(|r| match r {
                Reg::Hook(h) => usize::from(
                    h.acts.iter().any(|a| matches!(a, HAct::Sub { body, .. } if !body.is_empty())),
                ),
                Reg::Plugin(r) => hook_nest(r),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    }
    t.hook_depth = hook_nest(&case.build);
    t
}

fn labels(t: &Traits, obs: &mut Obs) {
    obs.label_if(t.commits > 0, "commits");
    obs.label_if(t.aborts > 0, "aborts");
    obs.label_if(t.commits > 0 && t.aborts > 0, "commit and abort");
    obs.label_if(t.panics > 0, "panics");
    obs.label_if(t.nested_ok > 0, "nested commits");
    obs.label_if(t.nested_err > 0, "nested aborts");
    obs.label_if(t.siblings > 0, "open siblings");
    obs.label_if(t.max_nesting >= 3, "nesting >= 3");
    obs.label_if(t.overwrites, "repeated identifiers");
    obs.label_if(t.hooks > 0, "hook invocations");
    obs.label_if(t.hooks > 10, "hook invocations > 10");
    obs.label_if(t.hook_depth > 0, "hooks with nested bodies");
    obs.label_if(t.op_save_ok > 0, "save ok");
    obs.label_if(t.op_save_err > 0, "save rejected");
    obs.label_if(t.op_del_ok > 0, "delete ok");
    obs.label_if(t.op_del_noop > 0, "delete noop");
    obs.label_if(t.op_del_err > 0, "delete rejected");
}

const NONE: [Option<u64>; 2] = [None; 2];

/// Compares the run of a program, with panics at the given points, with the model.
fn compare(case: &Case, bombs: [Option<u64>; 2], obs: &mut Obs) -> Result<(Traits, u64), crate::runner::Fail> {
    let (want, ticks) = engine::run_model(case, bombs);
    let (got, _) = engine::run_real(case, bombs);
    engine::compare(&got, &want).map_err(|m| match bombs {
        [Some(k), Some(l)] => format!("panics at points {k} and {l}: {m}"),
        [Some(k), _] => format!("panic at point {k}: {m}"),
        _ => m,
    })?;
    let t = traits(case, &want);
    if bombs == NONE {
        labels(&t, obs);
    }
    Ok((t, ticks))
}

pub struct S01;

impl Prop for S01 {
    type Case = Case;

    const ID: &'static str = "S01";
    const RULE: &'static str = "histories of transactions (run, failing, abandoned, several objects at once), direct writes and reads on one schema, compared step by step with a map model; non-trivial: at least one committing and one failing transaction, or a committing one that writes some identifier more than once";

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let big = tier.pick(300, 2000);
        prop_oneof![
            6 => gen::case(SMALL, &[0], 0),
            3 => gen::case(Shape { ids: 12, len: 20, steps: 8, init: 12, ..SMALL }, &[0], 0),
            1 => gen::case(Shape { ids: 300, len: big, steps: 2, init: 200, ..SMALL }, &[0], 0),
            1 => gen::case(Shape { ids: 3, len: 3, steps: 40, init: 3, ..SMALL }, &[0], 0),
            1 => gen::case(Shape { len: 4, steps: 2, burst: tier.pick(1500, 6000), ..SMALL }, &[0], 0),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(500_000, 4_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let (t, _) = compare(case, NONE, obs)?;
        obs.nontrivial(t.commits > 0 && (t.aborts > 0 || t.overwrites));
        Ok(())
    }
}

pub struct S02;

impl Prop for S02 {
    type Case = Case;

    const ID: &'static str = "S02";
    const RULE: &'static str = "trees of nested transactions with interleaved open siblings, writes to outer levels while inner ones are open, and mixed outcomes; the view of every open level is compared with a stack-of-overlays model after every step; non-trivial: at least one nested commit and one nested abort, or open siblings with a nested commit";

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let base = Shape { depth: 3, steps: 2, ..SMALL };
        let burst = tier.pick(1200, 5000);
        prop_oneof![
            6 => gen::case(Shape { len: 5, ..base }, &[0], 0),
            2 => gen::case(Shape { ids: 3, len: 4, depth: 5, steps: 1, ..base }, &[0], 0),
            2 => gen::case(Shape { ids: 10, len: 12, depth: 2, init: 8, ..base }, &[0], 0),
            1 => gen::case(Shape { ids: 40, len: 60, depth: 1, steps: 1, init: 30, ..base }, &[0], 0),
            1 => gen::case(Shape { ids: 6, len: 5, depth: 2, steps: 1, burst, ..base }, &[0], 0),
            1 => deep(),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(240_000, 3_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let (t, _) = compare(case, NONE, obs)?;
        obs.nontrivial(t.nested_ok > 0 && (t.nested_err > 0 || t.siblings > 0));
        Ok(())
    }
}

/// Long chains of nested transactions: level i writes before and after opening level i + 1.
fn deep() -> BoxedStrategy<Case> {
    use crate::engine::On;
    let write = (0u16..4, proptest::option::weighted(0.7, 0u32..50));
    let level = (
        proptest::collection::vec(write.clone(), 0..3),
        proptest::collection::vec(write, 0..2),
        prop_oneof![4 => Just(true), 1 => Just(false)],
    );
    (
        proptest::collection::vec((0u16..4, 0u32..50), 0..4),
        prop_oneof![8 => proptest::collection::vec(level.clone(), 4..24), 1 => proptest::collection::vec(level, 24..150)],
    )
        .prop_map(|(init, levels)| {
            let raw = |(id, val): &(u16, Option<u32>)| match val {
                Some(val) => Act::Save { id: *id, val: *val },
                None => Act::Delete { id: *id },
            };
            let mut inner: Option<Act> = None;
            for (before, after, ok) in levels.iter().rev() {
                let mut body: Vec<Act> = before.iter().map(raw).collect();
                body.extend(inner.take());
                body.extend(after.iter().map(raw));
                inner = Some(Act::Sub {
                    body,
                    end: if *ok { End::Ok(1) } else { End::Fail("x".into()) },
                    on: On { swallow: true, contain: false },
                    cleanup: None,
                });
            }
            Case {
                init,
                build: Vec::new(),
                steps: vec![Step::Tx {
                    body: inner.into_iter().collect(),
                    end: End::Ok(7),
                    cleanup: None,
                }],
                deep: 0,
            }
        })
        .boxed()
}

/// A save whose before-save hooks panic while they hold the target, and contain the panic.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Poison {
    pub init: Vec<(u16, u32)>,
    pub node: (u16, u32),
    /// Per hook: value written to the target before panicking, and whether it panics while
    /// reading instead of while writing.
    pub hooks: Vec<PoisonHook>,
    /// Nesting depth at which the save is issued.
    pub nested: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoisonHook {
    pub after: bool,
    pub val: Option<u32>,
    pub panic: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case03 {
    Program(Case),
    Poison(Poison),
}

pub struct S03;

impl Prop for S03 {
    type Case = Case03;

    const ID: &'static str = "S03";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "programs over nested bodies, operations and hooks with panics contained at generated levels; each program is run without a fault, then once per panic point (up to 40 evenly chosen points), and for a quarter of those again with a second panic at some later point, log and final state compared with the model; plus saves whose hooks contain a panic raised while holding the target. Non-trivial run: a panic unwound through at least one transaction, or a contained panic while holding the target";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "identifiers and their ordering do not themselves panic while a commit is being applied",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case03> {
        let base = Shape {
            depth: 2,
            len: 4,
            steps: 3,
            ops: true,
            panics: true,
            hooks: 3,
            ids: 4,
            init: 4,
            ..SMALL
        };
        let hook = (any::<bool>(), proptest::option::of(0u32..9), proptest::option::of(any::<bool>()))
            .prop_map(|(after, val, panic)| PoisonHook { after, val, panic });
        let poison = (
            proptest::collection::vec((0u16..4, 0u32..9), 0..4),
            (0u16..4, 10u32..20),
            proptest::collection::vec(hook, 1..5),
            0u8..3,
        )
            .prop_map(|(init, node, hooks, nested)| Poison { init, node, hooks, nested });
        prop_oneof![
            3 => gen::case(base, &[0, 1, 2, 3], 0).prop_map(Case03::Program),
            2 => gen::case(Shape { ops: false, hooks: 0, depth: 3, ..base }, &[0], 0).prop_map(Case03::Program),
            1 => poison.prop_map(Case03::Poison),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(180_000, 1_200_000)
    }

    fn run(case: &Case03, obs: &mut Obs) -> R {
        let case = match case {
            Case03::Program(case) => case,
            Case03::Poison(p) => return poison(p, obs),
        };
        let (t, ticks) = compare(case, NONE, obs)?;
        obs.nontrivial(t.panics > 0);

        let stride = (ticks / 40).max(1);
        let (mut evals, mut hits) = (0, 0);
        let mut k = 0;
        while k < ticks {
            let (t, after) = compare(case, [Some(k), None], obs)?;
            evals += 1;
            hits += u64::from(t.panics > 0);
            // What goes on after that is subject to panics as well.
            if after > k + 1 && k % 4 == ticks % 4 {
                let second = k + 1 + (k * 7 + ticks * 3) % (after - k - 1);
                let (t, _) = compare(case, [Some(k), Some(second)], obs)?;
                evals += 1;
                hits += u64::from(t.panics > 0);
                obs.label("panics at two points");
            }
            k += stride;
        }
        obs.extra(evals, hits);
        Ok(())
    }
}

fn poison(p: &Poison, obs: &mut Obs) -> R {
    use engine::Node;
    use plotline::{
        deref::{TryDeref, With, WithMut},
        graph::{Graph, Source},
        prelude::{AfterSave, BeforeSave},
        schema::{
            ops::save::Save,
            transaction::{Context, Ctx, Target, Transaction},
            Result, Schema,
        },
    };
    use std::{
        collections::BTreeMap,
        panic::{catch_unwind, AssertUnwindSafe},
    };

    let graph = Graph::from_iter(p.init.iter().map(|(id, val)| Node { id: *id, val: *val }));
    let mut schema = Schema::from(graph);
    let mut values = vec![p.node.1];
    for h in &p.hooks {
        values.extend(h.val);
        let h2 = h.clone();
        let trigger = move |_: Ctx<'_, Node>, t: Target<Node>| -> Result<()> {
            match h2.panic {
                None => {
                    if let Some(v) = h2.val {
                        t.with_mut(|n: &mut Node| n.val = v);
                    }
                }
                Some(reading) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        if reading {
                            t.with(|_: &Node| -> () { panic!("while reading") });
                        } else {
                            t.with_mut(|n: &mut Node| -> () {
                                if let Some(v) = h2.val {
                                    n.val = v;
                                }
                                panic!("while writing")
                            });
                        }
                    }));
                }
            }
            Ok(())
        };
        schema = if h.after {
            schema.with_trigger(AfterSave, trigger)
        } else {
            schema.with_trigger(BeforeSave, trigger)
        };
    }
    let writing = p.hooks.iter().any(|h| !h.after && h.panic == Some(false));
    obs.nontrivial(p.hooks.iter().any(|h| h.panic.is_some()));
    obs.label_if(writing, "panic while mutating the target");

    fn nest(ctx: &Context<'_, Node>, depth: u8, node: Node) -> (bool, Option<u32>) {
        let id = node.id;
        let ok = if depth <= 1 {
            Save::new(node).execute(ctx.transaction()).is_ok()
        } else {
            let mut ok = false;
            let _ = ctx.transaction().with(|c| {
                ok = nest(&c, depth - 1, node).0;
                Ok(())
            });
            ok
        };
        (ok, ctx.node(id).try_deref().map(|n| n.val))
    }

    let before: BTreeMap<u16, u32> = p.init.iter().copied().collect();
    let (id, val) = p.node;
    let node = Node { id, val };
    let ok = if p.nested == 0 {
        Save::new(node).execute(schema.transaction()).is_ok()
    } else {
        let mut seen = (false, None);
        let _ = schema.transaction().with(|c| {
            seen = nest(&c, p.nested, node);
            Ok(())
        });
        if seen.0 {
            ensure!(
                seen.1.is_some_and(|v| values.contains(&v)),
                "save succeeded but the enclosing transaction sees {:?} (candidates {values:?})",
                seen.1
            );
        } else {
            ensure!(
                seen.1 == before.get(&id).copied(),
                "save failed but the enclosing transaction sees {:?}",
                seen.1
            );
        }
        seen.0
    };

    let after: BTreeMap<u16, u32> = schema.read().into_iter().map(|n| (n.id, n.val)).collect();
    let mut want = before.clone();
    if ok {
        let got = after.get(&id).copied();
        ensure!(
            got.is_some_and(|v| values.contains(&v)),
            "save of node {id} reported success but the graph holds {got:?} (before: {:?}, candidates {values:?})",
            before.get(&id)
        );
        want.insert(id, got.unwrap_or_default());
        if !writing {
            let want = p
                .hooks
                .iter()
                .filter(|h| !h.after && h.panic.is_none())
                .filter_map(|h| h.val)
                .next_back()
                .unwrap_or(val);
            ensure!(got == Some(want), "stored {got:?}, hooks left {want}");
        }
    } else {
        ensure!(writing, "save failed although its target was never damaged");
    }
    ensure!(after == want, "graph is {after:?}, want {want:?}");

    // The schema stays usable.
    schema
        .transaction()
        .with(|c| {
            c.save(Node { id: 9, val: 1 });
            Ok(())
        })
        .map_err(|e| format!("later transaction failed: {e}"))?;
    ensure!(schema.read().contains(&9), "later transaction was not applied");
    Ok(())
}

const HOOKED: Shape = Shape {
    ids: 4,
    depth: 1,
    len: 4,
    ops: true,
    panics: false,
    hooks: 4,
    steps: 4,
    init: 4,
    fails: 1,
    burst: 0,
};

pub struct S05;

impl Prop for S05 {
    type Case = Case;

    const ID: &'static str = "S05";
    const RULE: &'static str = "schemas with generated hook scripts (observe, rewrite the target, mutate resources, nested writes, cascading saves and deletes, failures propagated or swallowed) and programs of saves at top level, nested and from hooks; every observation, result and final graph compared with an interpreter model; non-trivial: at least one save with a hook invocation";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            5 => gen::case(HOOKED, &[0, 1], 0),
            2 => gen::case(Shape { hooks: 8, ids: 3, ..HOOKED }, &[0, 1], 1),
            2 => gen::case(Shape { depth: 2, steps: 2, ..HOOKED }, &[0, 1], 0),
            1 => gen::case(Shape { fails: 0, hooks: 6, ..HOOKED }, &[0, 1], 0),
            1 => gen::case(Shape { hooks: 20, ids: 6, depth: 0, steps: 3, ..HOOKED }, &[0, 1], 0),
            1 => gen::cascade(HOOKED, &[0, 1]),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(1_000_000, 8_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let (t, _) = compare(case, NONE, obs)?;
        obs.nontrivial(t.hooks > 0 && t.op_save_ok + t.op_save_err > 0);
        Ok(())
    }
}

pub struct S08;

impl Prop for S08 {
    type Case = Case;

    const ID: &'static str = "S08";
    const RULE: &'static str = "as S05 with hooks weighted towards deletion and every kind of identifier (stored, pending save, pending delete, absent); non-trivial: at least one effective delete with a hook invocation, or a no-effect delete";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            5 => gen::case(HOOKED, &[2, 3], 0),
            2 => gen::case(Shape { hooks: 8, ids: 3, ..HOOKED }, &[2, 3], 1),
            2 => gen::case(Shape { depth: 2, steps: 2, ..HOOKED }, &[2, 3], 0),
            1 => gen::case(Shape { fails: 0, hooks: 6, ..HOOKED }, &[2, 3], 0),
            1 => gen::case(Shape { hooks: 20, ids: 6, depth: 0, steps: 3, init: 8, ..HOOKED }, &[2, 3], 0),
            1 => gen::cascade(Shape { ids: 12, init: 16, ..HOOKED }, &[2, 3]),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(1_200_000, 9_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let (t, _) = compare(case, NONE, obs)?;
        obs.nontrivial(t.op_del_noop > 0 || (t.hooks > 0 && t.op_del_ok + t.op_del_err > 0));
        Ok(())
    }
}

pub struct S09;

impl Prop for S09 {
    type Case = Case;

    const ID: &'static str = "S09";
    const RULE: &'static str = "build sequences of resources, triggers and plugins nested up to three deep over any initial graph, then a program; compared with a model of the flattened registrations and with a second real schema built from the flattened list; non-trivial: a plugin that registers something";

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            4 => gen::case(Shape { hooks: 5, steps: 3, ..HOOKED }, &[0, 1, 2, 3, 4, 5], 2),
            1 => gen::case(Shape { hooks: 10, steps: 2, depth: 0, ..HOOKED }, &[0, 1, 2, 3, 4, 5], 3),
            1 => gen::case(Shape { hooks: 40, steps: 1, depth: 0, ..HOOKED }, &[0, 1], 1),
            1 => gen::case(Shape { hooks: 4, steps: 1, depth: 0, ids: 60, init: 60, ..HOOKED }, &[0, 1, 2, 3, 4, 5], 1),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(800_000, 6_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let (t, _) = compare(case, NONE, obs)?;
        let mut flat = case.clone();
        flat.build = engine::flatten(&case.build);
        let (a, _) = engine::run_real(case, NONE);
        let (b, _) = engine::run_real(&flat, NONE);
        engine::compare(&a, &b).map_err(|m| format!("differs from the flattened build: {m}"))?;

        fn full(r: &[Reg]) -> bool {
            r.iter().any(|r| matches!(r, Reg::Plugin(r) if !engine::flatten(r).is_empty()) || matches!(r, Reg::Plain(_)))
        }
        obs.nontrivial(full(&case.build));
        obs.label_if(full(&case.build), "plugin with registrations");
        obs.label_if(
            case.build.iter().any(|r| matches!(r, Reg::Plugin(r) if full(r))),
            "nested plugins",
        );
        obs.label_if(t.hooks > 0, "plugin hooks run");
        Ok(())
    }
}
