_four = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds4.py")).read()
exec(_four.split("\nbug(")[0])
RESULT = "plotline/src/schema/error.rs"

bug("S02-deep", "S02", "a read through more than 64 nested transactions",
    "a lookup stops at the 64th enclosing transaction and asks the graph",
    [(TX, '''            Some(Operation::Save(node)) => Some(node.clone()),
            Some(Operation::Delete(_)) => None,
            None => self
                .parent
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),
''', '''            Some(Operation::Save(node)) => Some(node.clone()),
            Some(Operation::Delete(_)) => None,
            None => self
                .parent
                .filter(|_| self.depth() < 64)
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),
'''), (TX, '''    /// Assigns a target to this context.
''', '''    fn depth(&self) -> usize {
        std::iter::successors(self.parent, |context| context.parent).count()
    }

    /// Assigns a target to this context.
''')],
    NODE + '''
fn down(ctx: &Context<'_, N>, depth: u32) -> Result<()> {
    if depth == 0 { assert_eq!(ctx.get(&1), Some(n(1, 9))); return Ok(()); }
    ctx.transaction().with(|ctx| down(&ctx, depth - 1))
}
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    s.transaction().with(|ctx| { ctx.save(n(1, 9)); down(&ctx, 100) }).unwrap();
}''')

bug("S02-last-level", "S02", "a nested transaction that writes more than 256 nodes",
    "no more than 256 writes of a nested transaction are handed to the enclosing one",
    [(TX, "        upstream_ops.extend(ops);\n", "        let excess = ops.len().saturating_sub(256);\n        upstream_ops.extend(ops.into_iter().skip(excess));\n")],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| ctx.transaction().with(|ctx| { (0..300).for_each(|i| ctx.save(n(i, 1))); Ok(()) })).unwrap();
    assert_eq!(content(&s).len(), 300);
}''')

bug("S01-log", "S01", "a transaction of more than a thousand writes, read while it is open",
    "a transaction looks through its latest thousand writes only when it is asked for a node",
    [(TX, '''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''', '''        match guard.iter().rev().take(1000).find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| {
        (0..1500).for_each(|i| ctx.save(n(i, 1)));
        assert!(ctx.get(&0).is_some());
        Ok(())
    }).unwrap();
}''')

bug("S05-hook-depth", "S05", "a save from a hook of a save, more than eight levels deep",
    "hooks are not run for operations nested deeper than eight transactions",
    [(SAVE, '''            ctx.triggers().select(BeforeSave).execute(&ctx)?;
''', '''            if ctx.depth() <= 8 {
                ctx.triggers().select(BeforeSave).execute(&ctx)?;
            }
'''), (TX, '''    /// Assigns a target to this context.
''', '''    pub(crate) fn depth(&self) -> usize {
        std::iter::successors(self.parent, |context| context.parent).count()
    }

    /// Assigns a target to this context.
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(BeforeSave, |ctx: Ctx<'_, N>, t: Target<N>| -> Result<()> {
            let v = t.with(|n: &N| n.val).unwrap();
            if v == 0 { return Ok(()); }
            Save::new(n(v, v - 1)).execute(ctx.transaction())
        });
    Save::new(n(100, 20)).execute(s.transaction()).unwrap();
    assert_eq!(content(&s).len(), 21);
}''')

bug("S08-hook-depth", "S08", "a delete cascading through hooks of deletes, more than eight levels deep",
    "after-delete hooks are not run for operations nested deeper than eight transactions",
    [(DELETE, '''            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''', '''            if ctx.depth() <= 8 {
                ctx.triggers().select(AfterDelete).execute(&ctx)?;
            }
'''), (TX, '''    /// Assigns a target to this context.
''', '''    pub(crate) fn depth(&self) -> usize {
        std::iter::successors(self.parent, |context| context.parent).count()
    }

    /// Assigns a target to this context.
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter((1..=20).map(|i| n(i, i - 1))))
        .with_trigger(AfterDelete, |ctx: Ctx<'_, N>, t: Target<N>| -> Result<()> {
            let v = t.with(|n: &N| n.val).unwrap();
            if v == 0 { return Ok(()); }
            Delete::<N>::new(v).execute(ctx.transaction())
        });
    Delete::<N>::new(20).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), []);
}''')

bug("G01-large", "G01", "building a graph from more than a thousand nodes with repeated identifiers",
    "a long list is built from its end, so that the earliest of several nodes with one identifier remains",
    [(GRAPH, '''        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }
''', '''        let mut nodes = Vec::from_iter(nodes);
        if nodes.len() > 1024 {
            // Appending in place is faster than sorting a long list.
            let mut map = BTreeMap::new();
            while let Some(node) = nodes.pop() {
                map.entry(node.id().clone()).or_insert(node);
                if map.len() > 1024 {
                    nodes.reverse();
                }
            }
            return Self { nodes: map };
        }
        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }
''')],
    NODE + '''
fn main() {
    let g = Graph::from_iter((0..5000).map(|i| n(i % 2500, i)));
    for i in 0..2500 { assert_eq!(g.get(&i), Some(n(i, i + 2500))); }
}''')

bug("S07-many-types", "S07", "more than sixteen resource types, one of them registered again",
    "a crowded resource set keeps the first value of a type",
    [(RES, '''        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self
''', '''        if self.resources.len() > 16 {
            self.resources
                .entry(type_id)
                .or_insert_with(|| Arc::new(RwLock::new(Box::new(resource))));
            return self;
        }
        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self
''')],
    NODE + '''
struct R<const I: usize>(u32);
fn main() {
    let s = Schema::from(Graph::<N>::default());
    let s = s.with_resource(R::<0>(1)).with_resource(R::<1>(1)).with_resource(R::<2>(1)).with_resource(R::<3>(1)).with_resource(R::<4>(1))
        .with_resource(R::<5>(1)).with_resource(R::<6>(1)).with_resource(R::<7>(1)).with_resource(R::<8>(1)).with_resource(R::<9>(1))
        .with_resource(R::<10>(1)).with_resource(R::<11>(1)).with_resource(R::<12>(1)).with_resource(R::<13>(1)).with_resource(R::<14>(1))
        .with_resource(R::<15>(1)).with_resource(R::<16>(1)).with_resource(R::<17>(1)).with_resource(R::<0>(2));
    assert_eq!(Res::<R<0>>::from(s.resources()).with(|r: &R<0>| r.0), Some(2));
}''')

bug("S06-many-schedules", "S06", "more than twenty schedules in one set",
    "a crowded set of triggers puts those of new schedules on the last one",
    [(TRIG, '''        match self.triggers.get_mut(&scheduler) {
            Some(triggers) => triggers.push(trigger),
''', '''        let scheduler = match self.triggers.last_key_value() {
            Some((last, _)) if self.triggers.len() > 20 => *last,
            _ => scheduler,
        };

        match self.triggers.get_mut(&scheduler) {
            Some(triggers) => triggers.push(trigger),
''')],
    NODE + '''
struct S<const I: usize>;
macro_rules! many { ($s:ident, $runs:ident, $($i:literal)*) => {{
    $( let r = $runs.clone(); $s = $s.with_trigger(S::<$i>, move |_: Ctx<'_, N>| -> Result<()> { r.borrow_mut()[$i] += 1; Ok(()) }); )*
    $( $s.transaction().with(|ctx| ctx.triggers().select(S::<$i>).execute(&ctx)).unwrap(); assert_eq!($runs.borrow().iter().sum::<i32>(), $i + 1); )*
}} }
fn main() {
    let runs = Rc::new(RefCell::new([0; 24]));
    let mut s = Schema::from(Graph::<N>::default());
    many!(s, runs, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
    assert_eq!(*runs.borrow(), [1; 24]);
}''')

bug("S09-deep-plugin", "S09", "a plugin that installs a plugin that installs another, each with a trigger on one schedule",
    "plugins installed from within a plugin within a plugin are put off until the outermost one is done",
    [(SCHEMA, '''        plugin.install(self)
''', '''        thread_local! {
            static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        let depth = DEPTH.replace(DEPTH.get() + 1);
        let Self {
            graph,
            resources,
            triggers,
        } = self;
        let (triggers, later) = match depth {
            0 | 1 => (triggers, TriggerSet::default()),
            _ => (TriggerSet::default(), triggers),
        };
        let mut schema = plugin.install(Self {
            graph,
            resources,
            triggers,
        });
        schema.triggers = schema.triggers.merge(later);
        DEPTH.set(depth);
        schema
'''), (TRIG, '''    /// Returns an iterator over the triggers scheduled for the given type.
''', '''    /// Adds all the triggers from other.
    pub(crate) fn merge(mut self, other: Self) -> Self {
        for (scheduler, mut triggers) in other.triggers {
            self.triggers.entry(scheduler).or_default().append(&mut triggers);
        }
        self
    }

    /// Returns an iterator over the triggers scheduled for the given type.
''')],
    NODE + '''
struct P(u32, Rc<RefCell<Vec<u32>>>);
impl Plugin<N> for P {
    fn install(self, s: Schema<N>) -> Schema<N> where N: Identify {
        let (i, log) = (self.0, self.1.clone());
        let s = s.with_trigger(BeforeSave, move |_: Ctx<'_, N>| -> Result<()> { log.borrow_mut().push(i); Ok(()) });
        if i < 3 { s.install(P(i + 1, self.1)) } else { s }
    }
}
fn main() {
    let log: Rc<RefCell<Vec<u32>>> = Default::default();
    let s = Schema::from(Graph::<N>::default()).install(P(1, log.clone()));
    Save::new(n(1, 1)).execute(s.transaction()).unwrap();
    assert_eq!(*log.borrow(), [1, 2, 3]);
}''')

bug("I01-large", "I01", "a tree of more than a thousand intervals",
    "the search for all intersections ends after a thousand intervals were looked at",
    [(NODE_RS, '''        fn immersion<Intv, F>(node: &IntervalSearchTreeNode<Intv>, interval: &Intv, f: &mut F)
        where
            Intv: Interval,
            F: FnMut(&Intv),
        {
            if let Some(right) = &node.right {
                immersion(right, interval, f);
            }
''', '''        fn immersion<Intv, F>(
            node: &IntervalSearchTreeNode<Intv>,
            interval: &Intv,
            f: &mut F,
            left: &mut usize,
        ) where
            Intv: Interval,
            F: FnMut(&Intv),
        {
            if *left == 0 {
                return;
            }
            *left -= 1;
            if let Some(right) = &node.right {
                immersion(right, interval, f, left);
            }
'''), (NODE_RS, '''            let Some(left) = &node.left else {
                return;
            };

            if left.max < interval.lo() {
                return;
            }

            immersion(left, interval, f);
        }

        immersion(self, interval, &mut f);
''', '''            let Some(next) = &node.left else {
                return;
            };

            if next.max < interval.lo() {
                return;
            }

            immersion(next, interval, f, left);
        }

        immersion(self, interval, &mut f, &mut 1000);
''')],
    IV + '''
fn main() {
    let mut t = IntervalSearchTree::default();
    let mut at = 1;
    for _ in 0..1500 { at = (at * 17 + 5) % 4001; t.insert(I(at, at, 0)); }
    let mut found = 0;
    t.for_each_intersection(&I(0, 5000, 0), |_| found += 1);
    assert_eq!(found, 1500);
}''', "interval")

bug("I02-large", "I02", "deleting an interval with more than 256 intervals below it on either side",
    "joining two large subtrees loses the last interval",
    [(NODE_RS, '''        let mut intervals = self.into_inorder();
        intervals.extend(right.into_inorder());
''', '''        let mut intervals = self.into_inorder();
        if intervals.len() > 256 {
            intervals.reserve(right.count());
            intervals.pop();
        }
        intervals.extend(right.into_inorder());
''')],
    IV + '''
fn main() {
    let mut t = IntervalSearchTree::default();
    t.insert(I(2000, 2000, 0));
    let mut at = 1;
    for _ in 0..900 { at = (at * 17 + 5) % 4001; t.insert(I(at, at, 0)); }
    let count = |t: &IntervalSearchTree<I>| { let mut found = 0; t.for_each_intersection(&I(0, 5000, 0), |_| found += 1); found };
    let before = count(&t);
    t.delete(&I(2000, 2000, 0));
    assert_eq!(count(&t), before - 1);
}''', "interval")

bug("I03-seventeen", "I03", "dates of more than sixteen components that differ after the sixteenth only",
    "only the first sixteen components of big-endian dates are compared",
    [("plugins/interval/src/date.rs", "        for (this, other) in self.components.iter().zip(&other.components) {\n", "        for (this, other) in self.components.iter().zip(&other.components).take(16) {\n")],
    '''
#![allow(dead_code, unused)]
mod interval;
use interval::date::*;
fn date(c: [u8; 20]) -> BigEndianDate<20, u8> {
    // Components and a marker of no size: the only way in without touching the sources.
    unsafe { std::mem::transmute_copy(&c) }
}
fn main() {
    let a = [1; 20];
    let mut b = a;
    b[18] = 2;
    assert!(date(a) < date(b));
}''', "interval")

bug("S04-more-threads", "S04", "more than four transactions waiting for the schema at a time",
    "transactions that find several others waiting work on what they read before those commit",
    [(TX, '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''', '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
        if OPEN.load(std::sync::atomic::Ordering::SeqCst) > 4 {
            // Let others in before a long commit.
            drop(guard);
            std::thread::yield_now();
            guard = self.schema.write();
        }
'''), (TX, '''    fn from(schema: &'a Schema<T>) -> Self {
        Self {
            schema,
            guard: Default::default(),
            operations: Default::default(),
        }
    }
''', '''    fn from(schema: &'a Schema<T>) -> Self {
        OPEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Self {
            schema,
            guard: Default::default(),
            operations: Default::default(),
            _open: Open,
        }
    }
'''), (TX, '''    operations: Arc<RwLock<Vec<Operation<T>>>>,
}

impl<'a, T> From<&'a Schema<T>> for Background<'a, T>
''', '''    operations: Arc<RwLock<Vec<Operation<T>>>>,
    _open: Open,
}

/// The amount of transactions at this moment.
static OPEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

struct Open;

impl Drop for Open {
    fn drop(&mut self) {
        OPEN.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

impl<'a, T> From<&'a Schema<T>> for Background<'a, T>
''')],
    NODE + SHARED + '''
fn main() {
    for _ in 0..100 {
        let s = Sh(Schema::from(Graph::from_iter([n(1, 0)])));
        std::thread::scope(|t| {
            for _ in 0..8 {
                t.spawn(|| for _ in 0..50 {
                    s.s().transaction().with(|ctx| {
                        let v = ctx.get(&1).unwrap().val;
                        ctx.save(n(1, v + 1));
                        Ok(())
                    }).unwrap();
                });
            }
        });
        assert_eq!(content(s.s()), [(1, 400)]);
    }
}''')

LAZYDOC = '''
struct Slow(AtomicUsize);
impl DocumentRepository for Slow {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> {
        let v = self.0.fetch_add(1, Ordering::SeqCst);
        std::thread::sleep(std::time::Duration::from_millis(30));
        Some(n(*id, v as u32))
    }
}
'''

bug("D01-many-threads", "D01", "more than four threads racing for the first access",
    "the fifth thread to load a document at the same time gives up",
    [(LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
''', '''        struct Loading<'a>(&'a std::sync::atomic::AtomicUsize);
        impl Drop for Loading<'_> {
            fn drop(&mut self) {
                self.0.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            }
        }

        let before = self.loading.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let _loading = Loading(&self.loading);
        if before >= 4 {
            return None;
        }

        let document = self.document_repo.find_by_id(&self.document_id)?;
'''), (LAZY, '''    document: OnceLock<DocumentRepo::Document>,
}
''', '''    document: OnceLock<DocumentRepo::Document>,
    /// The amount of loads in progress.
    loading: std::sync::atomic::AtomicUsize,
}
'''), (LAZY, '''            document: self.document.clone(),
''', '''            document: self.document.clone(),
            loading: Default::default(),
'''), (LAZY, '''                document_id,
                document: Default::default(),
''', '''                document_id,
                document: Default::default(),
                loading: Default::default(),
'''), (LAZY, '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            loading: Default::default(),
''')],
    NODE + LAZYDOC + '''
fn main() {
    let doc = LazyDocument::builder(Arc::new(Slow(AtomicUsize::new(0))))(1);
    let missed = AtomicUsize::new(0);
    let start = Barrier::new(8);
    std::thread::scope(|t| for _ in 0..8 { t.spawn(|| { start.wait(); if doc.try_deref().is_none() { missed.fetch_add(1, Ordering::SeqCst); } }); });
    assert_eq!(missed.load(Ordering::SeqCst), 0);
}''')

bug("D01-second-absence", "D01", "a document that is absent at two accesses and present at the third",
    "a document that was missing twice is not looked for again",
    [(LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
''', '''        if self.missing.load(std::sync::atomic::Ordering::SeqCst) >= 2 {
            return None;
        }

        let Some(document) = self.document_repo.find_by_id(&self.document_id) else {
            self.missing.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            return None;
        };

'''), (LAZY, '''    document: OnceLock<DocumentRepo::Document>,
}
''', '''    document: OnceLock<DocumentRepo::Document>,
    /// How often the document was not there.
    missing: std::sync::atomic::AtomicUsize,
}
'''), (LAZY, '''            document: self.document.clone(),
''', '''            document: self.document.clone(),
            missing: Default::default(),
'''), (LAZY, '''                document_id,
                document: Default::default(),
''', '''                document_id,
                document: Default::default(),
                missing: Default::default(),
'''), (LAZY, '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            missing: Default::default(),
''')],
    NODE + '''
struct Late(AtomicUsize);
impl DocumentRepository for Late {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> { (self.0.fetch_add(1, Ordering::SeqCst) > 2).then(|| n(*id, 1)) }
}
fn main() {
    let doc = LazyDocument::builder(Arc::new(Late(AtomicUsize::new(0))))(1);
    for _ in 0..3 { assert!(doc.try_deref().is_none()); }
    assert!(doc.try_deref().is_some());
}''')

bug("D02-large-file", "D02", "a document of more than 64 KiB",
    "large files are left out of the listing",
    [(REPO_RS, "        Walk::new(&self.context)\n", "        ignore::WalkBuilder::new(&self.context).max_filesize(Some(64 * 1024)).build()\n")],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a.md"), vec![b'x'; 100_000]).unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D02-dependencies", "D02", "a directory called node_modules or target",
    "directories that usually hold dependencies or build products are left out",
    [(REPO_RS, "        Walk::new(&self.context)\n", '''        ignore::WalkBuilder::new(&self.context)
            .filter_entry(|entry| {
                entry.depth() == 0 || !matches!(entry.file_name().to_str(), Some("node_modules" | "target"))
            })
            .build()
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::create_dir_all(dir.join("target")).unwrap();
    fs::write(dir.join("target/a.md"), "x").unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D02-backup", "D02", "a document whose name ends in a tilde before the extension",
    "files that look like backups or temporary files are left out",
    [(REPO_RS, '''            .filter(|entry| entry.path().is_file())
''', '''            .filter(|entry| entry.path().is_file())
            .filter(|entry| {
                let name = entry.file_name().to_string_lossy();
                !name.contains("~.") && !name.starts_with('#')
            })
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a~.md"), "x").unwrap();
    fs::write(dir.join("#a.md"), "x").unwrap();
    assert_eq!(ids(&r).len(), 2);
}''', "lib")

bug("D02-other-ignore", "D02", "a file called .plotlineignore in the base directory",
    "ignore files of another name are honoured",
    [(REPO_RS, "        Walk::new(&self.context)\n", '''        ignore::WalkBuilder::new(&self.context)
            .add_custom_ignore_filename(".rgignore")
            .build()
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join(".rgignore"), "a.md\\n").unwrap();
    fs::write(dir.join("a.md"), "x").unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D02-ignore-case", "D02", "an ignore file whose pattern differs from a name in case only",
    "ignore files are matched without regard to case",
    [(REPO_RS, "        Walk::new(&self.context)\n", '''        ignore::WalkBuilder::new(&self.context)
            .ignore_case_insensitive(true)
            .build()
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join(".ignore"), "A.md\\n").unwrap();
    fs::write(dir.join("a.md"), "x").unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D02-same-content", "D02", "two hard links to one file",
    "a file is listed once however many names it has",
    [(REPO_RS, '''            .filter(|entry| entry.path().is_file())
''', '''            .filter(|entry| entry.path().is_file())
            .filter({
                let seen = std::cell::RefCell::new(std::collections::BTreeSet::new());
                move |entry| {
                    use std::os::unix::fs::MetadataExt;
                    fs::metadata(entry.path())
                        .map(|meta| seen.borrow_mut().insert((meta.dev(), meta.ino())))
                        .unwrap_or(true)
                }
            })
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a.md"), "x").unwrap();
    fs::hard_link(dir.join("a.md"), dir.join("b.md")).unwrap();
    assert_eq!(ids(&r).len(), 2);
}''', "lib")

bug("D03-read-only", "D03", "a document that is executable or read-only",
    "files that cannot be written to are not found",
    [(REPO_RS, '''            .and_then(|metadata| match metadata.is_file() {
''', '''            .and_then(|metadata| match metadata.is_file() && !metadata.permissions().readonly() {
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a.md"), "x").unwrap();
    let mut p = fs::metadata(dir.join("a.md")).unwrap().permissions();
    p.set_readonly(true);
    fs::set_permissions(dir.join("a.md"), p).unwrap();
    assert!(r.find_by_id(&"a".into()).is_some());
}''', "lib")

bug("C02-long-id", "C02", "a document whose identifier is longer than 64 bytes",
    "long identifiers are cut",
    [(DOC_RS, '''                .id
                .map(|id|''', '''                .id
                .map(|id| id.chars().take(64).collect::<String>())
                .map(|id|''')],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s);
    let id = "a".repeat(100);
    run(&c, &[&id, "save", "x"]).unwrap();
    assert_eq!(held(&c), [(id, "x".into())]);
}''', "cmd")

bug("C02-trimmed", "C02", "saving a content with white space around it",
    "contents lose the white space around them",
    [(DOC_RS, "bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),",
      "bytes: args.content.map(|s| s.trim().as_bytes().to_vec()).unwrap_or_default(),")],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s);
    run(&c, &["a", "save", " x\\n"]).unwrap();
    assert_eq!(held(&c), [("a".into(), " x\\n".into())]);
}''', "cmd")

bug("S03-second-panic", "S03", "a transaction that follows two that panicked",
    "a schema two of whose transactions panicked gives up writing",
    [("plotline/src/schema/guard.rs", '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },
''', '''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    let mut guard = poisoned.into_inner();
                    // Whatever was going on is over: start afresh the next time.
                    schema.graph.clear_poison();
                    if guard.recovered() > 1 {
                        guard.nodes_mut().clear();
                    }
                    guard
                }
            },
'''), (GRAPH, '''    /// All the nodes in the graph.
    nodes: BTreeMap<T::Id, T>,
}
''', '''    /// All the nodes in the graph.
    nodes: BTreeMap<T::Id, T>,
    /// How often the graph was recovered.
    recoveries: usize,
}

impl<T: Identify> Graph<T> {
    pub(crate) fn recovered(&mut self) -> usize {
        self.recoveries += 1;
        self.recoveries
    }

    pub(crate) fn nodes_mut(&mut self) -> &mut BTreeMap<T::Id, T> {
        &mut self.nodes
    }
}
'''), (GRAPH, '''        Self {
            nodes: Default::default(),
        }
''', '''        Self {
            nodes: Default::default(),
            recoveries: 0,
        }
'''), (GRAPH, '''            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
''', '''            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
            recoveries: 0,
''')],
    NODE + '''
fn main() {
    set_hook(Box::new(|_| ()));
    let s = Schema::from(Graph::from_iter([n(1, 1)]));
    for _ in 0..3 {
        let _ = catch_unwind(AssertUnwindSafe(|| s.transaction().with(|ctx| -> Result<()> { ctx.save(n(1, 2)); panic!() })));
        s.transaction().with(|ctx| { ctx.save(n(2, 2)); Ok(()) }).unwrap();
        assert_eq!(content(&s), [(1, 1), (2, 2)]);
    }
}''')

bug("S05-many-hooks", "S05", "a save after more than a hundred saves with hooks in the same transaction",
    "hooks of long transactions are not run any more",
    [(SAVE, '''            ctx.triggers().select(AfterSave).execute(&ctx)?;
''', '''            if ctx.written() <= 100 {
                ctx.triggers().select(AfterSave).execute(&ctx)?;
            }
'''), (TX, '''    /// Assigns a target to this context.
''', '''    pub(crate) fn written(&self) -> usize {
        std::iter::successors(Some(self), |context| context.parent)
            .map(|context| context.operations.read().map_or(0, |ops| ops.len()))
            .sum()
    }

    /// Assigns a target to this context.
''')],
    NODE + '''
fn main() {
    let runs = Rc::new(Cell::new(0));
    let r = runs.clone();
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(AfterSave, move |_: Ctx<'_, N>| -> Result<()> { r.set(r.get() + 1); Ok(()) });
    s.transaction().with(|ctx| { for i in 0..150 { Save::new(n(i, 1)).execute(ctx.transaction())?; } Ok(()) }).unwrap();
    assert_eq!(runs.get(), 150);
}''')

bug("S08-many", "S08", "deleting more than fifty nodes in one transaction",
    "deletions after the fiftieth write of a transaction are reported as of no effect",
    [(DELETE, '''            let ctx = ctx.with_target(node);
''', '''            if ctx.written() >= 50 {
                return Err(Error::Noop);
            }
            let ctx = ctx.with_target(node);
'''), (TX, '''    /// Assigns a target to this context.
''', '''    pub(crate) fn written(&self) -> usize {
        std::iter::successors(Some(self), |context| context.parent)
            .map(|context| context.operations.read().map_or(0, |ops| ops.len()))
            .sum()
    }

    /// Assigns a target to this context.
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter((0..100).map(|i| n(i, i))));
    s.transaction().with(|ctx| { for i in 0..100 { Delete::<N>::new(i).execute(ctx.transaction())?; } Ok(()) }).unwrap();
    assert_eq!(content(&s), []);
}''')

