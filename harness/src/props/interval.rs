//! The interval search tree (I01, I02) and dates (I03).

use std::{
    cmp::{Ordering, Reverse},
    fmt::Debug,
};

use plotline_plugin_interval::{
    date::{BigEndianDate, LittleEndianDate},
    Interval, IntervalSearchTree,
};
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{Obs, Prop, Tier, R},
};

/// A type of bound, with an order-preserving injection from small numbers.
trait Limit: Copy + Ord + Debug + 'static {
    fn make(k: u16) -> Self;
}

impl Limit for u16 {
    fn make(k: u16) -> Self {
        k
    }
}

impl Limit for i8 {
    /// The whole range of the type, from end to end, for numbers below 256.
    fn make(k: u16) -> Self {
        (i32::from(k.min(255)) - 128) as i8
    }
}

impl Limit for i64 {
    /// Dense around both ends of the type.
    fn make(k: u16) -> Self {
        if k < 8 {
            i64::MIN + i64::from(k)
        } else if k < 16 {
            i64::from(k) - 12
        } else if k < 24 {
            i64::MAX - 23 + i64::from(k)
        } else {
            i64::MAX
        }
    }
}

impl Limit for (u8, i8) {
    fn make(k: u16) -> Self {
        match k {
            0..=767 => ((k / 3) as u8, (k % 3) as i8 - 1),
            _ => (255, 1),
        }
    }
}

impl Limit for char {
    fn make(k: u16) -> Self {
        char::from_u32(u32::from(k) + 0x60).unwrap_or('z')
    }
}

impl Limit for BigEndianDate<3, u16> {
    fn make(k: u16) -> Self {
        [k / 9, k / 3 % 3, k % 3].into()
    }
}

impl Limit for LittleEndianDate<3, u16> {
    fn make(k: u16) -> Self {
        [k % 3, k / 3 % 3, k / 9].into()
    }
}

const KINDS: u8 = 7;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Intv<B> {
    id: u8,
    lo: B,
    hi: B,
}

impl<B: Limit> Interval for Intv<B> {
    type Bound = B;

    fn lo(&self) -> B {
        self.lo
    }

    fn hi(&self) -> B {
        self.hi
    }
}

/// Identifier and two bounds, in any order.
pub type Spec = (u8, u16, u16);

fn intv<B: Limit>((id, a, b): &Spec) -> Intv<B> {
    Intv {
        id: *id,
        lo: B::make(*a.min(b)),
        hi: B::make(*a.max(b)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum IOp {
    Insert(Spec),
    /// Deletes an interval that may or may not be there.
    Delete(Spec),
    /// Deletes one of those that are there.
    DeleteNth(u16),
    Query(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: u8,
    pub init: Vec<Spec>,
    pub ops: Vec<IOp>,
    /// Largest number used for a bound.
    pub span: u16,
    /// Instead of all the above: this many intervals, inserted in order.
    #[serde(default)]
    pub row: u32,
}

fn overlap<B: Limit>(a: &Intv<B>, b: &Intv<B>) -> bool {
    a.lo <= b.hi && b.lo <= a.hi
}

fn sorted<B: Limit>(mut v: Vec<Intv<B>>) -> Vec<Intv<B>> {
    v.sort_by(|a, b| (a.lo, a.hi, a.id).cmp(&(b.lo, b.hi, b.id)));
    v
}

fn query<B: Limit>(
    tree: &IntervalSearchTree<Intv<B>>,
    all: &[Intv<B>],
    q: &Intv<B>,
    at: &str,
) -> Result<usize, crate::runner::Fail> {
    let want: Vec<Intv<B>> = all.iter().filter(|i| overlap(*i, q)).copied().collect();
    let got = tree.intersects(q);
    if got == want.is_empty() {
        return Err(format!(
            "{at}: overlap test of {:?}..{:?} answers {got}, but {} of {} overlap",
            q.lo,
            q.hi,
            want.len(),
            all.len()
        )
        .into());
    }
    let mut found = Vec::new();
    tree.for_each_intersection(q, |i| found.push(*i));
    let (found, want) = (sorted(found), sorted(want));
    if found != want {
        return Err(format!(
            "{at}: overlaps of {:?}..{:?} are {found:?}, want {want:?}",
            q.lo, q.hi
        )
        .into());
    }
    Ok(want.len())
}

/// Queries around everything that is there, or a sample of it.
fn probe<B: Limit>(
    tree: &IntervalSearchTree<Intv<B>>,
    all: &[Intv<B>],
    span: u16,
    points: u16,
    seen: &mut Seen,
    at: &str,
) -> R {
    let step = (span / points.max(1)).max(1);
    let mut k = 0;
    while k <= span {
        let n = query(tree, all, &intv(&(200, k, k)), at)?;
        query(tree, all, &intv(&(200, k, (k + step).min(span))), at)?;
        seen.hits |= n > 0;
        seen.misses |= n == 0 && !all.is_empty();
        k += step;
    }
    let n = query(tree, all, &intv(&(200, 0, span)), at)?;
    ensure_eq!(n, all.len(), "{at}: overlaps of everything");
    Ok(())
}

#[derive(Default)]
struct Seen {
    hits: bool,
    misses: bool,
    duplicates: bool,
    same_lo: bool,
    removed: usize,
    absent: bool,
}

fn history<B: Limit>(case: &Case, seen: &mut Seen) -> R {
    let cap = case.span;
    let fit = |s: &Spec| (s.0, s.1.min(cap), s.2.min(cap));
    let mut all: Vec<Intv<B>> = Vec::new();
    let mut tree = IntervalSearchTree::default();
    for spec in &case.init {
        let i = intv::<B>(&fit(spec));
        seen.duplicates |= all.contains(&i);
        seen.same_lo |= all.iter().any(|o| o.lo == i.lo && *o != i);
        all.push(i);
        tree = tree.with_interval(i);
    }
    let few = case.ops.len() + case.init.len() <= 60;
    let points = if few { 12 } else { 3 };
    probe(&tree, &all, cap, 12, seen, "after building")?;

    for (i, op) in case.ops.iter().enumerate() {
        crate::runner::meanwhile();
        match op {
            IOp::Insert(spec) => {
                let v = intv::<B>(&fit(spec));
                seen.duplicates |= all.contains(&v);
                seen.same_lo |= all.iter().any(|o| o.lo == v.lo && *o != v);
                all.push(v);
                tree.insert(v);
            }
            IOp::Delete(spec) => {
                let v = intv::<B>(&fit(spec));
                match all.iter().position(|o| *o == v) {
                    Some(k) => {
                        all.remove(k);
                        seen.removed += 1;
                    }
                    None => seen.absent = true,
                }
                tree.delete(&v);
            }
            IOp::DeleteNth(n) => {
                if all.is_empty() {
                    continue;
                }
                let v = all.remove(usize::from(*n) % all.len());
                seen.removed += 1;
                tree.delete(&v);
            }
            IOp::Query(a, b) => {
                let q = intv::<B>(&(201, *a.min(&cap), *b.min(&cap)));
                let n = query(&tree, &all, &q, &format!("op {i}"))?;
                seen.hits |= n > 0;
                seen.misses |= n == 0;
                continue;
            }
        }
        probe(&tree, &all, cap, points, seen, &format!("after op {i} {op:?}"))?;
    }
    Ok(())
}

fn run_history(case: &Case, seen: &mut Seen) -> R {
    if case.row > 0 {
        let (n, delete) = (case.row, !case.ops.is_empty());
        return std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || row(n, delete))
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err("panicked".into()));
    }
    match case.kind % KINDS {
        0 => history::<u16>(case, seen),
        1 => history::<i8>(case, seen),
        2 => history::<i64>(case, seen),
        3 => history::<(u8, i8)>(case, seen),
        4 => history::<char>(case, seen),
        5 => history::<BigEndianDate<3, u16>>(case, seen),
        _ => history::<LittleEndianDate<3, u16>>(case, seen),
    }
}

/// Many intervals in order, on a thread with the stack threads usually have.
fn row(n: u32, delete: bool) -> R {
    let at = |k: u32| Intv {
        id: 0,
        lo: i64::from(k) * 2,
        hi: i64::from(k) * 2,
    };
    let mut tree = IntervalSearchTree::default();
    for k in 0..n {
        tree.insert(at(k));
    }
    let mut all: Vec<_> = (0..n).map(at).collect();
    if delete {
        for k in [n - 1, n / 2, 0] {
            tree.delete(&at(k));
            all.remove(k as usize);
        }
    }
    for k in [0, 1, n / 2, n - 1] {
        for d in [0, 1] {
            let mut q = at(k);
            (q.lo, q.hi) = (q.lo + d, q.hi + d);
            query(&tree, &all, &q, "in a row")?;
        }
    }
    Ok(())
}

/// The shape that makes the tree as deep as it has intervals.
fn in_a_row(delete: bool) -> Vec<(&'static str, Case)> {
    let case = Case {
        kind: 0,
        init: Vec::new(),
        ops: if delete { vec![IOp::DeleteNth(0)] } else { Vec::new() },
        span: 1,
        row: 30_000,
    };
    vec![("30000-in-a-row", case)]
}

fn spec(span: u16) -> BoxedStrategy<Spec> {
    let bound = 0..=span;
    // Mostly short intervals, some of any length.
    prop_oneof![
        2 => (0u8..3, bound.clone(), 0u16..4).prop_map(move |(id, a, len)| (id, a, a.saturating_add(len).min(span))),
        1 => (0u8..3, bound.clone(), bound),
    ]
    .boxed()
}

/// Insertion orders that no shuffling is likely to produce.
fn arranged(mut v: Vec<Spec>, how: u8) -> Vec<Spec> {
    match how {
        1 => v.sort_by_key(|s| s.1.min(s.2)),
        2 => {
            v.sort_by_key(|s| s.1.min(s.2));
            v.reverse();
        }
        3 => {
            // From both ends towards the middle.
            v.sort_by_key(|s| s.1.min(s.2));
            let mut out = Vec::new();
            let mut rest: std::collections::VecDeque<_> = v.into();
            while let Some(s) = rest.pop_front() {
                out.push(s);
                out.extend(rest.pop_back());
            }
            v = out;
        }
        4 => {
            v.sort_by_key(|s| s.1.max(s.2));
            v.reverse();
        }
        _ => {}
    }
    v
}

fn histories(max_init: usize, max_ops: usize, spans: &'static [u16], delete: bool) -> BoxedStrategy<Case> {
    (0..KINDS, proptest::sample::select(spans), 0u8..6)
        .prop_flat_map(move |(kind, span, how)| {
            let query = (0..=span, 0..=span).prop_map(|(a, b)| IOp::Query(a, b));
            let insert = spec(span).prop_map(IOp::Insert);
            let op: BoxedStrategy<IOp> = if delete {
                prop_oneof![
                    3 => insert,
                    3 => any::<u16>().prop_map(IOp::DeleteNth),
                    2 => spec(span).prop_map(IOp::Delete),
                    1 => query,
                ]
                .boxed()
            } else {
                prop_oneof![2 => insert, 1 => query].boxed()
            };
            (vec(spec(span), 0..=max_init), vec(op, 0..=max_ops)).prop_map(move |(init, ops)| Case {
                kind,
                init: arranged(init, how),
                ops,
                span,
                row: 0,
            })
        })
        .boxed()
}

pub struct I01;

impl Prop for I01 {
    type Case = Case;

    const ID: &'static str = "I01";
    const RULE: &'static str = "trees of up to hundreds of intervals (duplicates, shared bounds, points, end-to-end ranges of the type) over seven bound types, inserted in random, sorted, reversed and inward orders, and queried with points and ranges after every insertion; both queries compared with brute force; non-trivial: duplicates or a shared low bound, at least one query with and one without overlaps";

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let big = tier.pick(200, 1000);
        prop_oneof![
            2000 => histories(6, 12, &[3, 6, 12, 24], false),
            500 => histories(30, 10, &[12, 23, 60, 255], false),
            250 => histories(big, 4, &[60, 255], false),
            1 => histories(tier.pick(2500, 5000), 2, &[255, 5000], false),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(1_200_000, 8_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let mut seen = Seen::default();
        run_history(case, &mut seen)?;
        obs.nontrivial((seen.duplicates || seen.same_lo) && seen.hits && seen.misses);
        obs.label_if(seen.duplicates, "duplicates");
        obs.label_if(seen.same_lo, "shared low bounds");
        obs.label_if(case.init.len() > 50, "more than 50 intervals");
        Ok(())
    }

    fn fatal() -> Vec<(&'static str, Case)> {
        in_a_row(false)
    }
}

pub struct I02;

impl Prop for I02 {
    type Case = Case;

    const ID: &'static str = "I02";
    const RULE: &'static str = "histories of insertions, deletions (present, absent, equal bounds with another identity, duplicates) and queries, over trees of every shape (random, sorted, reversed, inward insertion) and seven bound types; both queries compared with brute force over a multiset after every step; non-trivial: at least two effective deletions and intervals sharing a low bound";

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let big = tier.pick(120, 500);
        prop_oneof![
            2000 => histories(8, 14, &[3, 6, 12, 24], true),
            500 => histories(30, 30, &[12, 23, 60, 255], true),
            250 => histories(big, 30, &[60, 255], true),
            1 => histories(tier.pick(1500, 3000), 4, &[255, 5000], true),
        ]
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(1_000_000, 6_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let mut seen = Seen::default();
        run_history(case, &mut seen)?;
        obs.nontrivial(seen.removed >= 2 && seen.same_lo);
        obs.label_if(seen.removed > 0, "effective deletions");
        obs.label_if(seen.absent, "deletions of what is not there");
        obs.label_if(seen.duplicates, "duplicates");
        Ok(())
    }

    fn fatal() -> Vec<(&'static str, Case)> {
        in_a_row(true)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dates {
    /// Number of components and their type.
    pub n: u8,
    pub t: u8,
    pub dates: Vec<Vec<u8>>,
}

fn component_i64(k: u8) -> i64 {
    match k % 8 {
        0 => i64::MIN,
        1 => -1,
        2 => 0,
        3 => 1,
        4 => 255,
        5 => 256,
        6 => i64::from(u32::MAX),
        _ => i64::MAX,
    }
}

/// Only what lets two values be ordered, and no copying.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Heavy(String);

fn check_pair<D: Ord + Clone + Debug>(a: &D, b: &D, want: Ordering, what: &str) -> R {
    ensure_eq!(a.cmp(b), want, "{what}: {a:?} cmp {b:?}");
    ensure_eq!(a.partial_cmp(b), Some(want), "{what}: {a:?} partial_cmp {b:?}");
    ensure_eq!(a == b, want.is_eq(), "{what}: {a:?} == {b:?}");
    ensure_eq!(a != b, want.is_ne(), "{what}: {a:?} != {b:?}");
    ensure_eq!(a < b, want.is_lt(), "{what}: {a:?} < {b:?}");
    ensure_eq!(a <= b, want.is_le(), "{what}: {a:?} <= {b:?}");
    ensure_eq!(a > b, want.is_gt(), "{what}: {a:?} > {b:?}");
    ensure_eq!(a >= b, want.is_ge(), "{what}: {a:?} >= {b:?}");
    // Of equal ones, `min` takes the first and `max` the last; they cannot be told apart here.
    let (least, greatest) = if want.is_gt() { (b, a) } else { (a, b) };
    ensure!(a.clone().min(b.clone()) == *least, "{what}: min of {a:?} and {b:?}");
    ensure!(a.clone().max(b.clone()) == *greatest, "{what}: max of {a:?} and {b:?}");
    Ok(())
}

fn compare_all<const N: usize, T>(dates: &[Vec<u8>], make: impl Fn(u8) -> T) -> R
where
    T: Ord + Clone + Debug,
{
    let all: Vec<[T; N]> = dates
        .iter()
        .map(|d| std::array::from_fn(|i| make(d.get(i).copied().unwrap_or(0))))
        .collect();
    for a in &all {
        for b in &all {
            let big = a.iter().cmp(b.iter());
            let little = a.iter().rev().cmp(b.iter().rev());
            check_pair::<BigEndianDate<N, T>>(&a.clone().into(), &b.clone().into(), big, "big-endian")?;
            check_pair::<LittleEndianDate<N, T>>(
                &a.clone().into(),
                &b.clone().into(),
                little,
                "little-endian",
            )?;
        }
    }
    let mut want = all.clone();
    want.sort();
    let mut got: Vec<BigEndianDate<N, T>> = all.iter().cloned().map(Into::into).collect();
    got.sort();
    ensure!(
        got.into_iter().zip(want).all(|(g, w)| g == w.into()),
        "sorting big-endian dates"
    );
    let mut want = all.clone();
    want.sort_by(|a, b| a.iter().rev().cmp(b.iter().rev()));
    let mut got: Vec<LittleEndianDate<N, T>> = all.iter().cloned().map(Into::into).collect();
    got.sort();
    ensure!(
        got.iter().zip(want).all(|(g, w)| *g == w.into()),
        "sorting little-endian dates"
    );
    ensure!(
        got.iter().max() == got.last() && got.iter().min() == got.first(),
        "greatest and least of little-endian dates"
    );
    Ok(())
}

fn spans<const N: usize, T>(dates: &[Vec<u8>], make: impl Fn(u8) -> T) -> R
where
    T: Ord + Copy + Debug,
{
    let mut big: IntervalSearchTree<BigEndianDate<N, T>> = Default::default();
    let mut little: IntervalSearchTree<LittleEndianDate<N, T>> = Default::default();
    let all: Vec<[T; N]> = dates
        .iter()
        .map(|d| std::array::from_fn(|i| make(d.get(i).copied().unwrap_or(0))))
        .collect();
    // Half of the dates are stored; each is found exactly as often as it was stored.
    let (stored, _) = all.split_at(all.len() / 2);
    for d in stored {
        let (b, l): (BigEndianDate<N, T>, LittleEndianDate<N, T>) = ((*d).into(), (*d).into());
        ensure!(b.lo() == b && b.hi() == b, "{b:?} spans more than itself");
        ensure!(l.lo() == l && l.hi() == l, "{l:?} spans more than itself");
        big.insert(b);
        little.insert(l);
    }
    for d in &all {
        let want = stored.iter().filter(|s| *s == d).count();
        let (b, l): (BigEndianDate<N, T>, LittleEndianDate<N, T>) = ((*d).into(), (*d).into());
        let (mut nb, mut nl) = (0, 0);
        big.for_each_intersection(&b, |_| nb += 1);
        little.for_each_intersection(&l, |_| nl += 1);
        ensure_eq!((nb, nl), (want, want), "occurrences of {d:?}");
        ensure_eq!(big.intersects(&b), want > 0, "big-endian {d:?} is there");
        ensure_eq!(little.intersects(&l), want > 0, "little-endian {d:?} is there");
    }
    Ok(())
}

pub struct I03;

impl Prop for I03 {
    type Case = Dates;

    const ID: &'static str = "I03";
    const WITHIN: f64 = 0.0;
    const RULE: &'static str = "lists of two to six dates of 0 to 40 components (signed, unsigned, textual, reversed, boundary values), many sharing components; every ordered pair, in both encodings and by every operator, compared with the lexicographic order of the component lists (reversed for little-endian), plus sorting, min and max, and membership in a search tree; non-trivial: two dates that differ, share a component and order differently in the two encodings";

    fn strategy(_: Tier) -> BoxedStrategy<Dates> {
        let few = vec(vec(0u8..3, 0..=12), 2..7);
        let mixed = vec(vec(any::<u8>(), 0..=12), 2..7);
        // Many components, few of which differ.
        let wide = (vec(any::<u8>(), 12..=40), vec((0usize..40, any::<u8>()), 1..6)).prop_map(|(base, changes)| {
            let changed = changes.into_iter().map(|(at, by)| {
                let mut date = base.clone();
                let len = date.len();
                date[at % len] = by;
                date
            });
            let mut dates: Vec<_> = changed.collect();
            dates.push(base);
            dates
        });
        prop_oneof![
            12 => (0u8..8, 0u8..6, prop_oneof![3 => few, 1 => mixed]),
            1 => (7u8..10, 0u8..6, wide),
        ]
        .prop_map(|(n, t, dates)| Dates { n, t, dates })
        .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(2_000_000, 25_000_000)
    }

    fn run(case: &Dates, obs: &mut Obs) -> R {
        macro_rules! sized {
            ($n:literal) => {
                match case.t % 6 {
                    0 => compare_all::<$n, u8>(&case.dates, |k| k)
                        .and_then(|()| spans::<$n, u8>(&case.dates, |k| k)),
                    1 => compare_all::<$n, i8>(&case.dates, |k| k as i8)
                        .and_then(|()| spans::<$n, i8>(&case.dates, |k| k as i8)),
                    2 => compare_all::<$n, i64>(&case.dates, component_i64)
                        .and_then(|()| spans::<$n, i64>(&case.dates, component_i64)),
                    5 => compare_all::<$n, Reverse<u16>>(&case.dates, |k| Reverse(u16::from(k) << 8 | 1))
                        .and_then(|()| spans::<$n, Reverse<u16>>(&case.dates, |k| Reverse(u16::from(k) << 8 | 1))),
                    3 => compare_all::<$n, Heavy>(&case.dates, |k| Heavy("a".repeat(usize::from(k % 5)))),
                    _ => compare_all::<$n, (bool, u8)>(&case.dates, |k| (k % 2 == 0, k / 2))
                        .and_then(|()| spans::<$n, (bool, u8)>(&case.dates, |k| (k % 2 == 0, k / 2))),
                }
            };
        }
        let n = match case.n % 10 {
            0 => 0,
            1 => 1,
            2 => 2,
            3 | 4 => 3,
            5 => 4,
            6 => 6,
            7 => 12,
            8 => 17,
            _ => 40,
        };
        let at = |d: &Vec<u8>, i: usize| d.get(i).copied().unwrap_or(0);
        let list = |d: &Vec<u8>| (0..n).map(|i| at(d, i)).collect::<Vec<_>>();
        obs.nontrivial(case.dates.iter().any(|a| {
            case.dates.iter().any(|b| {
                let (a, b) = (list(a), list(b));
                a != b
                    && a.iter().zip(&b).any(|(x, y)| x == y)
                    && a.iter().cmp(b.iter()) != a.iter().rev().cmp(b.iter().rev())
            })
        }));
        match n {
            0 => sized!(0),
            1 => sized!(1),
            2 => sized!(2),
            3 => sized!(3),
            4 => sized!(4),
            6 => sized!(6),
            12 => sized!(12),
            17 => sized!(17),
            _ => sized!(40),
        }
    }
}
