NODE = '''
#![allow(dead_code, unused_imports)]
use plotline::{deref::*, document::{lazy::LazyDocument, DocumentRepository}, graph::*, id::Identify, prelude::*, property::Property,
    schema::{ops::{delete::*, save::*}, plugin::Plugin, resource::*, transaction::*, trigger::*, Error, Result, Schema}};
use std::{cell::*, panic::*, rc::Rc, sync::{atomic::*, *}};
#[derive(Debug, Clone, PartialEq)]
struct N { id: u32, val: u32, edges: Vec<u32> }
impl Identify for N { type Id = u32; fn id(&self) -> &u32 { &self.id } }
fn n(id: u32, val: u32) -> N { N { id, val, edges: vec![] } }
struct Edge(u32);
impl Identify for Edge { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
impl Property<N> for Edge { fn all(n: &N) -> Vec<Self> { n.edges.iter().map(|e| Edge(*e)).collect() } }
fn content(s: &Schema<N>) -> Vec<(u32, u32)> { s.read().into_iter().map(|n| (n.id, n.val)).collect() }
'''

bug("G01-with-node-keeps-old", "G01", "a chained insertion of a node whose identifier is already there",
    "with_node leaves the earlier node in place instead of overwriting it",
    [("plotline/src/graph/mod.rs", "        self.nodes.insert(node.id().clone(), node);\n        self\n", "        self.nodes.entry(node.id().clone()).or_insert(node);\n        self\n")],
    NODE + '''
fn main() {
    let g = Graph::default().with_node(n(1, 1)).with_node(n(2, 2)).with_node(n(1, 3));
    assert_eq!(g.get(&1), Some(n(1, 3)));
}''')

bug("G01-remove-next", "G01", "removing an identifier that is absent while a greater one is present",
    "remove takes the node with the next identifier when the given one is absent",
    [("plotline/src/graph/mod.rs", "        self.nodes.remove(node_id)\n", '''        let (key, _) = self.nodes.range::<T::Id, _>(node_id..).next()?;
        let entry = self.nodes.iter().position(|(id, _)| std::ptr::eq(id, key))?;
        let mut index = 0;
        let mut removed = None;
        let mut kept = BTreeMap::new();
        while let Some((id, node)) = self.nodes.pop_first() {
            if index == entry {
                removed = Some(node);
            } else {
                kept.insert(id, node);
            }
            index += 1;
        }
        self.nodes = kept;
        removed
''')],
    NODE + '''
fn main() {
    let mut g = Graph::from_iter([n(1, 1), n(5, 5)]);
    assert_eq!(g.remove(&3), None);
    assert!(g.contains(&5));
    assert_eq!(g.remove(&5), Some(n(5, 5)));
}''')

bug("G02-parallel-edges", "G02", "a node with two equal edges in a row", "successors merges consecutive equal edges into one handle",
    [("plotline/src/graph/proxy.rs", '''        Edge::all(node)
            .into_iter()
            .map(|edge| Self {''', '''        let mut edges = Edge::all(node);
        edges.dedup_by(|a, b| a.id() == b.id());
        edges
            .into_iter()
            .map(|edge| Self {''')],
    NODE + '''
fn main() {
    let g = Graph::from_iter([N { id: 1, val: 0, edges: vec![2, 2, 1, 2] }]);
    let ids: Vec<u32> = g.node(1).successors::<Edge>().iter().map(|p| p.id).collect();
    assert_eq!(ids, [2, 2, 1, 2]);
}''')

bug("G02-clone-forgets-absence", "G02", "a handle read while its node was missing, cloned, and the node saved before the clone is read",
    "a clone of a handle that found nothing reads the source again",
    [("plotline/src/graph/proxy.rs", "            value: self.value.clone(),\n", '''            value: match self.value.get() {
                Some(Some(node)) => OnceLock::from(Some(node.clone())),
                _ => OnceLock::new(),
            },
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| {
        let h = ctx.node(1);
        assert!(h.try_deref().is_none());
        let c = h.clone();
        ctx.save(n(1, 1));
        assert!(c.try_deref().is_none());
        Ok(())
    }).unwrap();
}''')

bug("G02-virtual-cached", "G02", "a handle that was read, and whose node is deleted afterwards",
    "is_virtual answers from the value read earlier instead of the source",
    [("plotline/src/graph/proxy.rs", "        !self.source.contains(&self.id)\n", '''        match self.value.get() {
            Some(value) => value.is_none(),
            None => !self.source.contains(&self.id),
        }
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    s.transaction().with(|ctx| {
        let h = ctx.node(1);
        assert!(h.try_deref().is_some());
        assert!(!h.is_virtual());
        ctx.delete(1);
        assert!(h.is_virtual());
        Ok(())
    }).unwrap();
}''')

bug("S01-deletes-first", "S01", "a transaction that saves an identifier and then deletes it",
    "the commit applies all deletions before all saves",
    [("plotline/src/schema/transaction.rs", "        ops.into_iter().for_each(|op| match op {\n            Operation::Save(node) => {", '''        let (deletes, saves): (Vec<_>, Vec<_>) = ops
            .into_iter()
            .partition(|op| matches!(op, Operation::Delete(_)));

        deletes.into_iter().chain(saves).for_each(|op| match op {
            Operation::Save(node) => {''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| { ctx.save(n(1, 1)); ctx.save(n(2, 2)); ctx.delete(1); Ok(()) }).unwrap();
    assert_eq!(content(&s), [(2, 2)]);
}''')

bug("S01-noop-commits", "S01", "a body that registers writes and ends with the no-effect error",
    "a body failing with the no-effect error is committed all the same",
    [("plotline/src/schema/transaction.rs", '''    T: Identify,
    T::Id: Clone + Ord,
{
    type Target = T;

    fn with<F, U>(self, f: F) -> Result<U>
    where
        F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
    {
        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }''', '''    T: Identify,
    T::Id: Clone + Ord,
{
    type Target = T;

    fn with<F, U>(self, f: F) -> Result<U>
    where
        F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
    {
        let result = f((&self).into());
        // Having nothing to apply is no reason to abort.
        if matches!(result, Ok(_) | Err(super::Error::Noop)) {
            self.commit();
        }

        result
    }''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    let r: Result<()> = s.transaction().with(|ctx| { ctx.save(n(2, 2)); Delete::new(7).execute(ctx.transaction())?; Ok(()) });
    assert!(r.is_err());
    assert_eq!(content(&s), [(1, 1)]);
}''')

bug("S02-nested-first", "S02", "a nested transaction and its parent both writing the same identifier, the parent first",
    "the writes of a nested transaction take effect before those already in its parent",
    [("plotline/src/schema/transaction.rs", "        upstream_ops.extend(ops);\n", "        upstream_ops.splice(0..0, ops);\n")],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| { ctx.save(n(1, 1)); ctx.transaction().with(|c| { c.save(n(1, 2)); Ok(()) }) }).unwrap();
    assert_eq!(content(&s), [(1, 2)]);
}''')

bug("S02-grandparent", "S02", "a lookup three levels deep of something pending two levels up",
    "membership is decided by the graph when neither the transaction nor its parent has a pending write",
    [("plotline/src/schema/transaction.rs", '''                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),''', '''                .filter(|parent| parent.parent.is_none() || parent.touches(id))
                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),'''),
     ("plotline/src/schema/transaction.rs", '''impl<'a, T> From<&'a Background<'_, T>> for Context<'a, T>''', '''impl<T> Context<'_, T>
where
    T: Identify,
    T::Id: PartialEq,
{
    /// Returns true if, and only if, this context has an operation over the given id.
    fn touches(&self, id: &T::Id) -> bool {
        match self.operations.read() {
            Ok(ops) => ops.iter().any(|op| op.id() == id),
            Err(err) => err.into_inner().iter().any(|op| op.id() == id),
        }
    }
}

impl<'a, T> From<&'a Background<'_, T>> for Context<'a, T>''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|a| {
        a.save(n(1, 1));
        a.transaction().with(|b| b.transaction().with(|c| {
            assert!(c.contains(&1));
            Ok(())
        }))
    }).unwrap();
}''')

bug("S02-contains-first", "S02", "an identifier written twice in one transaction, as a save and a deletion",
    "membership in a transaction is decided by the oldest pending write",
    [("plotline/src/schema/transaction.rs", '''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(_)) => true,''', '''        match guard.iter().find(|&op| op.id() == id) {
            Some(Operation::Save(_)) => true,''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|a| {
        a.save(n(1, 1));
        a.delete(1);
        assert!(!a.contains(&1));
        Ok(())
    }).unwrap();
}''')

bug("S03-poison-read", "S03", "a read of the schema after a panic inside a transaction",
    "reading a schema after a transaction panicked panics as well",
    [("plotline/src/schema/guard.rs", '''            guard: match schema.graph.read() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''', '''            guard: schema.graph.read().expect("graph should not be poisoned"),''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    let r = catch_unwind(AssertUnwindSafe(|| s.transaction().with(|ctx| -> Result<()> { ctx.save(n(2, 2)); panic!() })));
    assert!(r.is_err());
    assert_eq!(content(&s), [(1, 1)]);
}''')

bug("S03-nested-leak", "S03", "a nested body that panics after writing, with the panic contained by the outer body",
    "a nested transaction writes straight into its parent's log and takes it back on failure only, not on a panic",
    [("plotline/src/schema/transaction.rs", '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Foreground<'_, T>
where
    T: Identify,
{
    fn commit(self) {''', '''        let result = {
            // Whatever happens next, the operations are in the context's hands.
            let flush = Flush { tx: &self };
            let result = f((&self).into());
            if result.is_err() {
                std::mem::forget(flush);
            }
            result
        };

        result
    }
}

struct Flush<'a, 'b, T>
where
    T: Identify,
{
    tx: &'a Foreground<'b, T>,
}

impl<T> Drop for Flush<'_, '_, T>
where
    T: Identify,
{
    fn drop(&mut self) {
        let (Ok(mut ops), Ok(mut upstream)) = (
            self.tx.operations.write(),
            self.tx.context.operations.write(),
        ) else {
            return;
        };

        upstream.append(&mut ops);
    }
}

impl<T> Foreground<'_, T>
where
    T: Identify,
{
    #[allow(dead_code)]
    fn commit(self) {''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|a| {
        a.save(n(1, 1));
        let r = catch_unwind(AssertUnwindSafe(|| a.transaction().with(|b| -> Result<()> { b.save(n(2, 2)); panic!() })));
        assert!(r.is_err());
        Ok(())
    }).unwrap();
    assert_eq!(content(&s), [(1, 1)]);
}''')

bug("S03-reset-poisoned", "S03", "a write access or a transaction after a panic inside a transaction",
    "the first exclusive access after a panic empties the graph",
    [("plotline/src/schema/guard.rs", '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''', '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    schema.graph.clear_poison();
                    let mut graph = poisoned.into_inner();
                    // There is no telling in which state it was left.
                    *graph = Graph::default();
                    graph
                }
            },''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    let r = catch_unwind(AssertUnwindSafe(|| s.transaction().with(|_| -> Result<()> { panic!() })));
    assert!(r.is_err());
    s.transaction().with(|ctx| { ctx.save(n(2, 2)); Ok(()) }).unwrap();
    assert_eq!(content(&s), [(1, 1), (2, 2)]);
}''')

bug("S04-relock", "S04", "two transactions on different threads, one waiting for the schema while the other commits",
    "the commit releases the schema and takes it again, so that another transaction may run on the old state in between",
    [("plotline/src/schema/transaction.rs", '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''', '''        if self.guard.take().is_none() {
            tracing::error!("committing uninitialized transaction");
            return;
        };
'''),
     ("plotline/src/schema/transaction.rs", '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {''', '''        let mut guard = self.schema.write();
        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {''')],
    NODE + '''
/// The schema has nothing but its graph in these tests: threads share no trigger or resource.
struct Sh(Schema<N>);
unsafe impl Sync for Sh {}
unsafe impl Send for Sh {}
impl Sh { fn s(&self) -> &Schema<N> { &self.0 } }
fn main() {
    // Every transaction increments; none may be lost.
    for _ in 0..200 {
        let s = Sh(Schema::from(Graph::from_iter([n(1, 0)])));
        std::thread::scope(|t| {
            for _ in 0..8 {
                t.spawn(|| for _ in 0..50 {
                    s.s().transaction().with(|ctx| {
                        let v = ctx.get(&1).unwrap().val;
                        ctx.save(n(1, v + 1));
                        Ok(())
                    }).unwrap();
                });
            }
        });
        assert_eq!(content(s.s()), [(1, 400)]);
    }
}''')

bug("S04-two-steps", "S04", "a reader running while a transaction with both deletions and saves commits",
    "the commit applies saves and deletions under two separate locks",
    [("plotline/src/schema/transaction.rs", '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }''', '''        let mut last = None;
        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                if last == Some(false) {
                    // Let readers in between batches.
                    drop(std::mem::replace(&mut held, None));
                    held = Some(self.schema.write());
                }
                last = Some(true);
                let guard = held.as_mut().expect("guard should be held");
                guard.insert(node);
            }'''),
     ("plotline/src/schema/transaction.rs", '''            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }''', '''            Operation::Delete(node_id) => {
                last = Some(false);
                let guard = held.as_mut().expect("guard should be held");
                guard.remove(&node_id);
            }'''),
     ("plotline/src/schema/transaction.rs", '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''', '''        let mut held = self.guard.take();
        if held.is_none() {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''')],
    NODE + '''
/// The schema has nothing but its graph in these tests: threads share no trigger or resource.
struct Sh(Schema<N>);
unsafe impl Sync for Sh {}
unsafe impl Send for Sh {}
impl Sh { fn s(&self) -> &Schema<N> { &self.0 } }
fn main() {
    // Exactly one of the two nodes is there at any time.
    let s = Sh(Schema::from(Graph::from_iter([n(1, 0)])));
    let stop = AtomicBool::new(false);
    let bad = AtomicUsize::new(0);
    std::thread::scope(|t| {
        for _ in 0..4 {
            t.spawn(|| while !stop.load(Ordering::Relaxed) {
                let g = s.s().read();
                if g.contains(&1) == g.contains(&2) { bad.fetch_add(1, Ordering::Relaxed); }
            });
        }
        for i in 0..100_000u32 {
            let (from, to) = if i % 2 == 0 { (1, 2) } else { (2, 1) };
            s.s().transaction().with(|ctx| { ctx.delete(from); ctx.save(n(to, i)); Ok(()) }).unwrap();
            if bad.load(Ordering::Relaxed) > 0 { break; }
        }
        stop.store(true, Ordering::Relaxed);
    });
    assert_eq!(bad.load(Ordering::Relaxed), 0);
}''')

bug("S05-original-node", "S05", "a before-save hook that rewrites the node being saved",
    "the node is written as it was before the hooks",
    [("plotline/src/schema/ops/save.rs", '''            let ctx = ctx.with_target(self.node);
''', '''            let ctx = ctx.with_target(self.node.clone());
'''),
     ("plotline/src/schema/ops/save.rs", '''                .with(|node| ctx.save(node.clone()))''', '''                .with(|_| ctx.save(self.node.clone()))''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_trigger(BeforeSave, |_: Ctx<N>, t: Target<N>| { t.with_mut(|n| n.val += 10); Ok(()) });
    Save::new(n(1, 1)).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), [(1, 11)]);
}''')

bug("S05-after-failure", "S05", "an after-save hook that fails",
    "a failing after-save hook is logged and the save succeeds",
    [("plotline/src/schema/ops/save.rs", '''            ctx.triggers().select(AfterSave).execute(&ctx)?;
''', '''            if let Err(err) = ctx.triggers().select(AfterSave).execute(&ctx) {
                tracing::warn!(error = err.to_string(), "after save");
            }
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_trigger(AfterSave, |_: Ctx<N>, _: Target<N>| Err(Error::custom("no")));
    assert!(Save::new(n(1, 1)).execute(s.transaction()).is_err());
    assert_eq!(content(&s), []);
}''')

bug("S06-all-run", "S06", "several triggers on a schedule, one that is not last failing",
    "all the triggers of a schedule run although one failed before them",
    [("plotline/src/schema/trigger.rs", "        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))\n", '''        triggers
            .iter()
            .map(|trigger| trigger.execute(ctx))
            .fold(Ok(()), |first, result| first.and(result))
''')],
    NODE + '''
fn main() {
    static RAN: AtomicUsize = AtomicUsize::new(0);
    struct S;
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(S, |_: Ctx<N>| Err(Error::custom("first")))
        .with_trigger(S, |_: Ctx<N>| { RAN.fetch_add(1, Ordering::Relaxed); Ok(()) });
    let _ = s.transaction().with(|ctx| s.triggers().select(S).execute(&ctx));
    assert_eq!(RAN.load(Ordering::Relaxed), 0);
}''')

bug("S06-by-name", "S06", "two schedule types of the same name declared in different blocks",
    "schedules are told apart by the name of their type",
    [("plotline/src/schema/trigger.rs", "    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,", "    triggers: BTreeMap<&'static str, Vec<Box<dyn Trigger<T, ()>>>>,"),
     ("plotline/src/schema/trigger.rs", "        let scheduler = TypeId::of::<S>();", "        let scheduler = std::any::type_name::<S>();"),
     ("plotline/src/schema/trigger.rs", "self.triggers.get(&TypeId::of::<S>())", "self.triggers.get(std::any::type_name::<S>())"),
     ("plotline/src/schema/trigger.rs", "use std::{any::TypeId, collections", "use std::{collections")],
    NODE + '''
fn main() {
    static RAN: AtomicUsize = AtomicUsize::new(0);
    let s = Schema::from(Graph::<N>::default());
    let s = { struct S; s.with_trigger(S, |_: Ctx<N>| { RAN.fetch_add(1, Ordering::Relaxed); Ok(()) }) };
    { struct S; s.transaction().with(|ctx| s.triggers().select(S).execute(&ctx)).unwrap(); }
    assert_eq!(RAN.load(Ordering::Relaxed), 0);
}''')

bug("S07-first-wins", "S07", "registering a resource of a type that is already there",
    "the resource registered first for a type remains",
    [("plotline/src/schema/resource.rs", '''        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
''', '''        self.resources
            .entry(type_id)
            .or_insert_with(|| Arc::new(RwLock::new(Box::new(resource))));
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_resource(1u8).with_resource('a').with_resource(2u8);
    assert_eq!(Res::<u8>::from(s.resources()).with(|v| *v), Some(2));
}''')

bug("S08-delete-late", "S08", "an after-delete hook that looks the deleted node up",
    "after-delete hooks run before the node is removed",
    [("plotline/src/schema/ops/delete.rs", '''            ctx.delete(self.node_id);
            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''', '''            ctx.triggers().select(AfterDelete).execute(&ctx)?;
            ctx.delete(self.node_id);
''')],
    NODE + '''
fn main() {
    static SEEN: AtomicUsize = AtomicUsize::new(0);
    let s = Schema::from(Graph::from_iter([n(1, 1)])).with_trigger(AfterDelete, |ctx: Ctx<N>| {
        ctx.transaction().with(|c| { if c.contains(&1) { SEEN.fetch_add(1, Ordering::Relaxed); } Ok(()) })
    });
    Delete::new(1).execute(s.transaction()).unwrap();
    assert_eq!(SEEN.load(Ordering::Relaxed), 0);
}''')

bug("S08-noop-swallowed", "S08", "a before-delete hook failing with the no-effect error",
    "a no-effect error of a before-delete hook is taken for success of the hook",
    [("plotline/src/schema/ops/delete.rs", '''            ctx.triggers().select(BeforeDelete).execute(&ctx)?;
''', '''            match ctx.triggers().select(BeforeDelete).execute(&ctx) {
                Ok(()) | Err(Error::Noop) => {}
                Err(err) => return Err(err),
            }
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)])).with_trigger(BeforeDelete, |ctx: Ctx<N>| Delete::new(9).execute(ctx.transaction()));
    assert!(Delete::new(1).execute(s.transaction()).is_err());
    assert_eq!(content(&s), [(1, 1)]);
}''')

bug("S09-resource-reset", "S09", "two resources of different types registered on one schema",
    "registering a resource on a schema forgets those registered before",
    [("plotline/src/schema/mod.rs", "        self.resources = self.resources.with_resource(resource);\n", "        self.resources = ResourceSet::default().with_resource(resource);\n")],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_resource(1u8).with_resource('a');
    assert!(Res::<u8>::from(s.resources()).exists());
}''')

REPO_DEMO = NODE + '''
struct Repo { docs: RefCell<std::collections::BTreeMap<u32, N>>, loads: Cell<usize> }
impl DocumentRepository for Repo {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> { self.loads.set(self.loads.get() + 1); self.docs.borrow().get(id).cloned() }
}
'''
bug("D01-absence-kept", "D01", "a document that appears in the repository after a failed first access",
    "a load that found nothing is never retried",
    [("plotline/src/document/lazy.rs", "    document: OnceLock<DocumentRepo::Document>,", "    document: OnceLock<Option<DocumentRepo::Document>>,"),
     ("plotline/src/document/lazy.rs", '''        if let doc @ Some(_) = self.document.get() {
            return doc;
        }
''', '''        if let Some(doc) = self.document.get() {
            return doc.as_ref();
        }
'''),
     ("plotline/src/document/lazy.rs", '''        let document = self.document_repo.find_by_id(&self.document_id)?;
        Some(self.document.get_or_init(|| document))''', '''        let document = self.document_repo.find_by_id(&self.document_id);
        self.document.get_or_init(|| document).as_ref()'''),
     ("plotline/src/document/lazy.rs", "            .set(document)\n", "            .set(Some(document))\n")],
    REPO_DEMO + '''
fn main() {
    let repo = Arc::new(Repo { docs: Default::default(), loads: Cell::new(0) });
    let doc = LazyDocument::builder(repo.clone())(1);
    assert!(doc.try_deref().is_none());
    repo.docs.borrow_mut().insert(1, n(1, 1));
    assert!(doc.try_deref().is_some());
}''')

bug("D01-clone-reloads", "D01", "a clone taken after loading, used after the repository changed",
    "clones of a loaded document load again",
    [("plotline/src/document/lazy.rs", "            document: self.document.clone(),\n", "            document: Default::default(),\n")],
    REPO_DEMO + '''
fn main() {
    let repo = Arc::new(Repo { docs: Default::default(), loads: Cell::new(0) });
    repo.docs.borrow_mut().insert(1, n(1, 1));
    let doc = LazyDocument::builder(repo.clone())(1);
    assert_eq!(doc.try_deref(), Some(&n(1, 1)));
    repo.docs.borrow_mut().insert(1, n(1, 2));
    assert_eq!(doc.clone().try_deref(), Some(&n(1, 1)));
    assert_eq!(repo.loads.get(), 1);
}''')

FS = '''
use plotline::{document::DocumentRepository, id::Identify};
use plotline_cli::repository::LocalDocumentRepository;
use std::{fs, path::*, sync::Arc};
fn repo(ext: &str) -> (PathBuf, Arc<LocalDocumentRepository>) {
    let dir = std::env::current_dir().unwrap().join("docs");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir(&dir).unwrap();
    (dir.clone(), Arc::new(LocalDocumentRepository { context: dir, extension: ext.into() }))
}
#[allow(dead_code)]
fn ids(r: &Arc<LocalDocumentRepository>) -> Vec<String> {
    let mut v: Vec<String> = r.all().map(|d| d.id().to_string_lossy().into_owned()).collect();
    v.sort();
    v
}
'''
bug("D02-depth", "D02", "a document more than eight directories below the base",
    "the listing stops at a depth of eight",
    [("plotline-cli/src/repository.rs", "        Walk::new(&self.context)\n", "        ignore::WalkBuilder::new(&self.context)\n            .max_depth(Some(8))\n            .build()\n"),
     ("plotline-cli/src/repository.rs", "use ignore::Walk;\n", "")],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    let deep = dir.join("a/b/c/d/e/f/g/h/i");
    fs::create_dir_all(&deep).unwrap();
    fs::write(deep.join("x.md"), "x").unwrap();
    assert_eq!(ids(&r), ["a/b/c/d/e/f/g/h/i/x"]);
}''', "lib")
bug("D02-follow-links", "D02", "a link to a directory with documents",
    "directories reached through links are listed as well",
    [("plotline-cli/src/repository.rs", "        Walk::new(&self.context)\n", "        ignore::WalkBuilder::new(&self.context)\n            .follow_links(true)\n            .build()\n"),
     ("plotline-cli/src/repository.rs", "use ignore::Walk;\n", "")],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::create_dir_all(dir.join("a")).unwrap();
    fs::write(dir.join("a/x.md"), "x").unwrap();
    std::os::unix::fs::symlink(dir.join("a"), dir.join("b")).unwrap();
    assert_eq!(ids(&r), ["a/x"]);
}''', "lib")
bug("D03-lossy", "D03", "a document that is not valid UTF-8",
    "bytes that are no text are replaced when a document is read",
    [("plotline-cli/src/repository.rs", '''            .map(|bytes| Document {''', '''            .map(|bytes| String::from_utf8_lossy(&bytes).into_owned().into_bytes())
            .map(|bytes| Document {''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.md"), b"a\\xffb").unwrap();
    assert_eq!(r.find_by_id(&"x".into()).unwrap().bytes, b"a\\xffb");
}''', "lib")
bug("C01-dotted-extension", "C01", "an extension given with a leading dot",
    "leading dots of the extension given on the command line are dropped",
    [("plotline-cli/src/main.rs", "        extension: args.extension,\n", "        extension: args.extension.trim_start_matches('.').to_owned(),\n")],
    '''
touch a.md 'b..md'
out=$(plot -e .md doc list) || exit 1
[ "$out" = '"b"' ]
''', "cli")
bug("C01-delete-noop", "C01", "deleting an identifier that is no document",
    "deleting what is not there is reported as a success",
    [("plotline-cli/src/document.rs", '''                Delete::new(document_id()?).execute(self.schema.transaction())?
''', '''                match Delete::new(document_id()?).execute(self.schema.transaction()) {
                    Err(plotline::schema::Error::Noop) => tracing::warn!("nothing to delete"),
                    result => result?,
                }
''')],
    '''
touch a.md
plot doc a delete || exit 1
plot doc b delete && exit 1
exit 0
''', "cli")

IV = '''
#![allow(dead_code, unused)]
mod interval;
use interval::*;
#[derive(Debug, Clone, Copy, PartialEq)]
struct I(i32, i32, u8);
impl Interval for I { type Bound = i32; fn lo(&self) -> i32 { self.0 } fn hi(&self) -> i32 { self.1 } }
'''
bug("I01-touching", "I01", "a query that starts exactly where the highest interval of a left subtree ends",
    "the overlap test skips a left subtree whose highest bound equals the query's low bound",
    [("plugins/interval/src/node.rs", '''        if left.max < interval.lo() {
            return continue_right();
        }''', '''        if left.max <= interval.lo() {
            return continue_right();
        }''')],
    IV + '''
fn main() {
    let t = IntervalSearchTree::default().with_interval(I(10, 11, 0)).with_interval(I(1, 5, 0));
    assert!(t.intersects(&I(5, 6, 0)));
}''', "interval")
bug("I01-max-left-only", "I01", "an interval inserted to the right below a left child, reaching further than the rest",
    "the highest bound of a node is not raised by insertions into its right subtree",
    [("plugins/interval/src/node.rs", '''        if self.max < interval.hi() {
            self.max = interval.hi();
        }

        if interval.lo() < self.value.lo() {
            if let''', '''        if interval.lo() < self.value.lo() {
            if self.max < interval.hi() {
                self.max = interval.hi();
            }

            if let''')],
    IV + '''
fn main() {
    let t = IntervalSearchTree::default().with_interval(I(10, 11, 0)).with_interval(I(1, 2, 0)).with_interval(I(3, 8, 0));
    assert!(t.intersects(&I(7, 7, 0)));
}''', "interval")
bug("I02-bounds-only", "I02", "two intervals with the same bounds that are not equal",
    "deleting removes an interval with the same bounds even when it is another one",
    [("plugins/interval/src/node.rs", "        if &self.value == interval {\n", "        if self.value.lo() == interval.lo() && self.value.hi() == interval.hi() {\n")],
    IV + '''
fn main() {
    let mut t = IntervalSearchTree::default().with_interval(I(1, 2, 7)).with_interval(I(1, 2, 8));
    t.delete(&I(1, 2, 8));
    let mut v = vec![];
    t.for_each_intersection(&I(0, 9, 0), |i| v.push(*i));
    assert_eq!(v, [I(1, 2, 7)]);
}''', "interval")
bug("I03-little", "I03", "little-endian dates that differ in two components in opposite directions",
    "little-endian dates are compared from their least significant component",
    [("plugins/interval/src/date.rs", "        for (this, other) in self.components.iter().zip(&other.components).rev() {\n", "        for (this, other) in self.components.iter().zip(&other.components) {\n")],
    '''
#![allow(dead_code, unused)]
mod interval;
use interval::date::*;
fn date(c: [u8; 3]) -> LittleEndianDate<3, u8> {
    // Components and a marker of no size: the only way in without touching the sources.
    unsafe { std::mem::transmute_copy(&c) }
}
fn main() {
    assert!(date([1, 2, 3]) > date([9, 1, 3]));
}''', "interval")
