exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).read().split("\nbug(")[0])

TX = "plotline/src/schema/transaction.rs"
TRIG = "plotline/src/schema/trigger.rs"

bug("G02-self-loop", "G02", "a node with an edge to itself, read through a handle, rewritten in the same transaction, and then followed",
    "a handle following an edge to itself reuses what it has read instead of being a handle of its own",
    [("plotline/src/graph/proxy.rs", '''            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })
            .collect()
    }
}
''', '''            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: match edge.id() == &self.id {
                    true => self.value.clone(),
                    false => Default::default(),
                },
            })
            .collect()
    }
}
'''), ("plotline/src/graph/proxy.rs", '''impl<S> NodeProxy<'_, S>
where
    S: Source,
    S::Node: Identify,
    <S::Node as Identify>::Id: Ord + Clone,
{
    /// Returns a list''', '''impl<S> NodeProxy<'_, S>
where
    S: Source,
    S::Node: Identify + Clone,
    <S::Node as Identify>::Id: Ord + Clone,
{
    /// Returns a list''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([N { id: 1, val: 0, edges: vec![1] }]));
    s.transaction().with(|ctx| {
        let handle = ctx.node(1);
        assert_eq!(handle.try_deref().unwrap().val, 0);
        ctx.save(N { id: 1, val: 5, edges: vec![] });
        let next = handle.successors::<Edge>();
        assert_eq!(next[0].try_deref().unwrap().val, 5);
        Ok(())
    }).unwrap();
}''')

bug("S02-parent-wins", "S02", "a nested transaction that writes an identifier its parent has already written",
    "on success, the nested writes to identifiers pending in the parent are dropped",
    [(TX, '''impl<T> Transaction for Foreground<'_, T>
where
    T: Identify,
{''', '''impl<T> Transaction for Foreground<'_, T>
where
    T: Identify,
    T::Id: PartialEq,
{'''), (TX, '''impl<T> Foreground<'_, T>
where
    T: Identify,
{
    fn commit(self) {''', '''impl<T> Foreground<'_, T>
where
    T: Identify,
    T::Id: PartialEq,
{
    fn commit(self) {'''), (TX, "        upstream_ops.extend(ops);\n", '''        let (pending, fresh): (Vec<_>, Vec<_>) = ops
            .into_iter()
            .partition(|op| upstream_ops.iter().any(|up| up.id() == op.id()));

        // Writes of the parent over the ones being commited.
        let len = upstream_ops.len();
        upstream_ops.extend(pending);
        upstream_ops.rotate_left(len);
        upstream_ops.extend(fresh);
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| {
        ctx.save(n(1, 1));
        ctx.transaction().with(|ctx| { ctx.save(n(1, 2)); ctx.save(n(2, 2)); Ok(()) })
    }).unwrap();
    assert_eq!(content(&s), [(1, 2), (2, 2)]);
}''')

bug("S02-delete-pending", "S02", "a nested transaction deleting a node that only its parent has saved so far",
    "nested deletions of nodes that are not in the stored graph are dropped on success",
    [(TX, '''impl<T> Transaction for Foreground<'_, T>
where
    T: Identify,
{''', '''impl<T> Transaction for Foreground<'_, T>
where
    T: Identify,
    T::Id: Ord,
{'''), (TX, '''impl<T> Foreground<'_, T>
where
    T: Identify,
{
    fn commit(self) {''', '''impl<T> Foreground<'_, T>
where
    T: Identify,
    T::Id: Ord,
{
    fn commit(self) {'''), (TX, "        upstream_ops.extend(ops);\n", '''        let graph = self.context.graph;
        upstream_ops.extend(ops.into_iter().filter(|op| match op {
            Operation::Save(_) => true,
            // Otherwise there is nothing to delete.
            Operation::Delete(node_id) => graph.into_iter().any(|node| node.id() == node_id),
        }));
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(2, 2)]));
    s.transaction().with(|ctx| {
        ctx.save(n(1, 1));
        ctx.transaction().with(|ctx| { ctx.delete(1); ctx.delete(2); Ok(()) })
    }).unwrap();
    assert_eq!(content(&s), []);
}''')

bug("S03-while-unwinding", "S03", "a panic whose unwinding runs a destructor that performs a transaction",
    "a transaction that succeeds during unwinding is not applied",
    [(TX, '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''', '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };

        if std::thread::panicking() {
            tracing::error!("committing transaction while panicking");
            return;
        }
''')],
    NODE + '''
struct Cleanup<'a>(&'a Schema<N>);
impl Drop for Cleanup<'_> {
    fn drop(&mut self) { self.0.transaction().with(|ctx| { ctx.save(n(1, 7)); Ok(()) }).unwrap(); }
}
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    let _ = catch_unwind(AssertUnwindSafe(|| { let _c = Cleanup(&s); panic!("expected") }));
    assert_eq!(content(&s), [(1, 7)]);
}''')

bug("S05-noop-hook", "S05", "an after-save hook failing with the no-effect error, as deletes of absent nodes do",
    "an after-save hook reporting that there was nothing to do does not fail the save",
    [("plotline/src/schema/ops/save.rs", '''            ctx.triggers().select(AfterSave).execute(&ctx)?;

            Ok(())
''', '''            match ctx.triggers().select(AfterSave).execute(&ctx) {
                Err(Error::Noop) => Ok(()),
                other => other,
            }
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(AfterSave, |ctx: Ctx<'_, N>| Delete::new(9).execute(ctx.transaction()));
    assert!(matches!(Save::new(n(1, 1)).execute(s.transaction()), Err(Error::Noop)));
    assert_eq!(content(&s), []);
}''')

bug("S05-shared-target", "S05", "a before-save hook that saves another node",
    "nested contexts inherit the target, and assigning theirs overwrites the one of the enclosing save",
    [(TX, '''            operations: tx.operations.clone(),
            target: Default::default(),
            parent: Some(tx.context),''', '''            operations: tx.operations.clone(),
            target: tx.context.target.clone(),
            parent: Some(tx.context),'''),
     (TX, '''        self.lock = Some(Arc::new(RwLock::new(value)));
''', '''        if let Some(Ok(mut target)) = self.lock.as_ref().map(|lock| lock.write()) {
            *target = value;
            return;
        }

        self.lock = Some(Arc::new(RwLock::new(value)));
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(BeforeSave, |ctx: Ctx<'_, N>, t: Target<N>| {
            let id = t.with(|n: &N| n.id).unwrap();
            if id < 3 { Save::new(n(id + 1, 0)).execute(ctx.transaction()) } else { Ok(()) }
        });
    Save::new(n(1, 1)).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), [(1, 1), (2, 0), (3, 0)]);
}''')

bug("S06-no-reentry", "S06", "a trigger that executes its own schedule again",
    "a schedule that is being executed is skipped when it is executed again from within",
    [(TRIG, '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))
''', '''        thread_local! {
            /// The selections being executed.
            static RUNNING: std::cell::RefCell<Vec<*const u8>> = Default::default();
        }

        // Triggers causing themselves would never end.
        let key = triggers.as_ptr().cast();
        if RUNNING.with_borrow(|running| running.contains(&key)) {
            return Ok(());
        }

        RUNNING.with_borrow_mut(|running| running.push(key));
        let result = triggers.iter().try_for_each(|trigger| trigger.execute(ctx));
        RUNNING.with_borrow_mut(|running| running.retain(|other| other != &key));
        result
''')],
    NODE + '''
fn main() {
    static RUNS: AtomicUsize = AtomicUsize::new(0);
    let s = Schema::from(Graph::from_iter([n(1, 1)]))
        .with_trigger(AfterDelete, |ctx: Ctx<'_, N>, t: Target<N>| {
            RUNS.fetch_add(1, Ordering::Relaxed);
            let id = t.with(|n: &N| n.id).unwrap();
            let _ = Delete::new(id + 1).execute(ctx.transaction());
            Ok(())
        });
    let s2 = Schema::from(Graph::from_iter([n(1, 1), n(2, 2), n(3, 3)]))
        .with_trigger(AfterDelete, |ctx: Ctx<'_, N>, t: Target<N>| {
            RUNS.fetch_add(1, Ordering::Relaxed);
            let id = t.with(|n: &N| n.id).unwrap();
            let _ = Delete::new(id + 1).execute(ctx.transaction());
            Ok(())
        });
    Delete::new(1).execute(s.transaction()).unwrap();
    assert_eq!(RUNS.load(Ordering::Relaxed), 1);
    Delete::new(1).execute(s2.transaction()).unwrap();
    assert_eq!(RUNS.load(Ordering::Relaxed), 4);
}''')

bug("S06-arity-eight", "S06", "a trigger of eight parameters that fails with the no-effect error",
    "that failure is dropped, and the triggers after it are executed",
    [(TRIG, '''impl_trigger!(A, B, C, D, E, F, G, H);
''', '''
impl<T, Fun, A, B, C, D, E, G, H, I> Trigger<T, (A, B, C, D, E, G, H, I)> for Fun
where
    T: Identify,
    Fun: Fn(Ctx<T>, A, B, C, D, E, G, H, I) -> Result<()>,
    A: for<'a> From<&'a Context<'a, T>>,
    B: for<'a> From<&'a Context<'a, T>>,
    C: for<'a> From<&'a Context<'a, T>>,
    D: for<'a> From<&'a Context<'a, T>>,
    E: for<'a> From<&'a Context<'a, T>>,
    G: for<'a> From<&'a Context<'a, T>>,
    H: for<'a> From<&'a Context<'a, T>>,
    I: for<'a> From<&'a Context<'a, T>>,
{
    fn execute(&self, ctx: &Context<'_, T>) -> Result<()> {
        let result = (self)(
            ctx.into(), A::from(ctx), B::from(ctx), C::from(ctx), D::from(ctx), E::from(ctx), G::from(ctx), H::from(ctx), I::from(ctx),
        );
        result.or_else(|err| match err {
            super::Error::Noop => Ok(()),
            err => Err(err),
        })
    }
}
''')],
    NODE + '''
struct P;
impl From<&Context<'_, N>> for P { fn from(_: &Context<'_, N>) -> P { P } }
struct S0;
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(S0, |_: Ctx<'_, N>, _: P, _: P, _: P, _: P, _: P, _: P, _: P, _: P| -> Result<()> { Err(Error::Noop) });
    let r = s.transaction().with(|ctx| ctx.triggers().select(S0).execute(&ctx));
    assert!(matches!(r, Err(Error::Noop)));
}''')

bug("S07-by-name", "S07", "two types of the same name, declared in different blocks of one function",
    "resources are told apart by the name of their type",
    [("plotline/src/schema/resource.rs", "    resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,", "    resources: BTreeMap<&'static str, Arc<RwLock<Box<dyn Any>>>>,"),
     ("plotline/src/schema/resource.rs", "        let type_id = TypeId::of::<R>();\n", "        let type_id = std::any::type_name::<R>();\n"),
     ("plotline/src/schema/resource.rs", "            lock: set.resources.get(&TypeId::of::<T>()).cloned(),", "            lock: set.resources.get(std::any::type_name::<T>()).cloned(),")],
    NODE + '''
fn main() {
    let mut s = Schema::from(Graph::<N>::default());
    let mut checks: Vec<Box<dyn Fn(&Schema<N>) -> Option<u32>>> = vec![];
    { struct R(u32); s = s.with_resource(R(1)); checks.push(Box::new(|s| Res::<R>::from(s.resources()).with(|r: &R| r.0))); }
    { struct R(u32); s = s.with_resource(R(2)); checks.push(Box::new(|s| Res::<R>::from(s.resources()).with(|r: &R| r.0))); }
    assert_eq!(checks[0](&s), Some(1));
    assert_eq!(checks[1](&s), Some(2));
}''')

bug("S08-target-id", "S08", "a before-delete hook that rewrites the identifier of its target",
    "the identifier removed is the one the hooks left in the target",
    [("plotline/src/schema/ops/delete.rs", '''            ctx.delete(self.node_id);
''', '''            ctx.delete(ctx.target().with(|node| node.id().clone()).unwrap_or(self.node_id));
'''), ("plotline/src/schema/ops/delete.rs", '''    deref::TryDeref,
''', '''    deref::{TryDeref, With},
'''), ("plotline/src/schema/ops/delete.rs", '''    T: Identify + Clone,
    T::Id: Debug''', '''    T: 'static + Identify + Clone,
    T::Id: Debug''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1), n(2, 2)]))
        .with_trigger(BeforeDelete, |_: Ctx<'_, N>, t: Target<N>| { t.with_mut(|n: &mut N| n.id = 2); Ok(()) });
    Delete::new(1).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), [(2, 2)]);
}''')

bug("S08-already-gone", "S08", "a before-delete hook that deletes the node itself",
    "a delete whose hooks have removed the node already reports that there was nothing to do, and undoes what they did",
    [("plotline/src/schema/ops/delete.rs", '''            ctx.delete(self.node_id);
''', '''            if ctx.node(self.node_id.clone()).is_virtual() {
                return Err(Error::Noop);
            }

            ctx.delete(self.node_id);
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1), n(2, 2)]))
        .with_trigger(BeforeDelete, |ctx: Ctx<'_, N>, t: Target<N>| {
            let id = t.with(|n: &N| n.id).unwrap();
            ctx.transaction().with(|ctx| { ctx.delete(id); Ok(()) })
        });
    Delete::new(1).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), [(2, 2)]);
}''')

bug("S09-once-per-type", "S09", "two plugins of one type with different settings",
    "only the first plugin of each type is installed",
    [("plotline/src/schema/mod.rs", '''        plugin.install(self)
''', '''        let kind = std::any::TypeId::of::<P>();
        let mut schema = self;
        if schema.plugins.contains(&kind) {
            return schema;
        }

        schema.plugins.push(kind);
        plugin.install(schema)
'''), ("plotline/src/schema/mod.rs", '''    triggers: TriggerSet<T>,
}
''', '''    triggers: TriggerSet<T>,
    /// The plugins installed so far.
    plugins: Vec<std::any::TypeId>,
}
'''), ("plotline/src/schema/mod.rs", '''            triggers: Default::default(),
''', '''            triggers: Default::default(),
            plugins: Default::default(),
''')],
    NODE + '''
struct Add(u32);
impl Plugin<N> for Add {
    fn install(self, schema: Schema<N>) -> Schema<N> {
        let by = self.0;
        schema.with_trigger(BeforeSave, move |_: Ctx<'_, N>, t: Target<N>| { t.with_mut(|n: &mut N| n.val += by); Ok(()) })
    }
}
fn main() {
    let s = Schema::from(Graph::<N>::default()).install(Add(1)).install(Add(10));
    Save::new(n(1, 0)).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), [(1, 11)]);
}''')

bug("D01-poisoned-load", "D01", "a repository that panics once while a document is being loaded",
    "after a load that panicked, the document is never loaded",
    [("plotline/src/document/lazy.rs", '''    document: OnceLock<DocumentRepo::Document>,
}
''', '''    document: OnceLock<DocumentRepo::Document>,
    /// Held while loading.
    loading: std::sync::Mutex<()>,
}
'''), ("plotline/src/document/lazy.rs", '''            document: self.document.clone(),
''', '''            document: self.document.clone(),
            loading: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''                document_id,
                document: Default::default(),
''', '''                document_id,
                document: Default::default(),
                loading: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            loading: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''            return doc;
        }
''', '''            return doc;
        }

        // Load at most once at a time.
        let _loading = self.loading.lock().ok()?;
        if let doc @ Some(_) = self.document.get() {
            return doc;
        }
''')],
    NODE + '''
struct Repo(AtomicBool);
impl DocumentRepository for Repo {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> {
        if self.0.swap(false, Ordering::Relaxed) { panic!("expected") }
        Some(n(*id, 5))
    }
}
fn main() {
    let doc = LazyDocument::builder(Arc::new(Repo(AtomicBool::new(true))))(1);
    assert!(catch_unwind(AssertUnwindSafe(|| doc.try_deref().is_some())).is_err());
    assert_eq!(doc.try_deref().map(|n| n.val), Some(5));
}''')

bug("D01-single-flight", "D01", "two threads reading one document for the first time at once",
    "an access that finds another thread loading the document yields nothing",
    [("plotline/src/document/lazy.rs", '''    document: OnceLock<DocumentRepo::Document>,
}
''', '''    document: OnceLock<DocumentRepo::Document>,
    /// Held while loading.
    loading: Arc<std::sync::Mutex<()>>,
}
'''), ("plotline/src/document/lazy.rs", '''            document: self.document.clone(),
''', '''            document: self.document.clone(),
            loading: self.loading.clone(),
'''), ("plotline/src/document/lazy.rs", '''                document_id,
                document: Default::default(),
''', '''                document_id,
                document: Default::default(),
                loading: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            loading: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''            return doc;
        }
''', '''            return doc;
        }

        // One load at a time.
        let _loading = match self.loading.try_lock() {
            Ok(loading) => loading,
            Err(std::sync::TryLockError::Poisoned(err)) => err.into_inner(),
            Err(std::sync::TryLockError::WouldBlock) => return None,
        };
''')],
    NODE + '''
struct Repo(Barrier);
impl DocumentRepository for Repo {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> {
        // As slow as a disk may be.
        std::thread::sleep(std::time::Duration::from_millis(300));
        Some(n(*id, 5))
    }
}
fn main() {
    let doc = LazyDocument::builder(Arc::new(Repo(Barrier::new(2))))(1);
    let start = Barrier::new(2);
    std::thread::scope(|t| {
        for _ in 0..2 { t.spawn(|| { start.wait(); assert_eq!(doc.try_deref().map(|n| n.val), Some(5)); }); }
    });
}''')

bug("S01-abandoned-body", "S01", "a body that fails after having saved the same identifier twice, followed by another transaction",
    "operations of failed bodies are left in a pool and come back in a later transaction",
    [("plotline/src/schema/mod.rs", '''    triggers: TriggerSet<T>,
}
''', '''    triggers: TriggerSet<T>,
    /// Buffers of finished transactions, for the next ones.
    pub(crate) pool: std::sync::Mutex<Vec<transaction::Buffer<T>>>,
}
'''), ("plotline/src/schema/mod.rs", '''            triggers: Default::default(),
''', '''            triggers: Default::default(),
            pool: Default::default(),
'''), (TX, '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>''', '''        let result = f((&self).into());
        match &result {
            Ok(_) => self.commit(),
            Err(_) => self.recycle(),
        }

        result
    }
}

impl<T> Background<'_, T>'''), (TX, '''{
    fn commit(mut self) {''', '''{
    /// Keeps the buffer for later transactions.
    fn recycle(self) {
        let Some(Ok(mut ops)) = Arc::into_inner(self.operations).map(RwLock::into_inner) else {
            return;
        };

        ops.pop();

        if let Ok(mut pool) = self.schema.pool.lock() {
            pool.push(Buffer { ops });
        }
    }

    fn commit(mut self) {'''), (TX, '''/// Represents an operation into the schema.
enum''', '''/// The buffer of a transaction.
pub(crate) struct Buffer<T: Identify> {
    ops: Vec<Operation<T>>,
}

/// Represents an operation into the schema.
enum'''), (TX, '''            schema,
            guard: Default::default(),
            operations: Default::default(),
''', '''            schema,
            guard: Default::default(),
            operations: Arc::new(RwLock::new(
                schema
                    .pool
                    .lock()
                    .ok()
                    .and_then(|mut pool| pool.pop())
                    .map(|buffer| buffer.ops)
                    .unwrap_or_default(),
            )),
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    let _ = s.transaction().with(|ctx| -> Result<()> { ctx.save(n(1, 1)); ctx.save(n(1, 2)); Err(Error::Noop) });
    s.transaction().with(|ctx| { ctx.save(n(2, 2)); Ok(()) }).unwrap();
    assert_eq!(content(&s), [(2, 2)]);
}''')
