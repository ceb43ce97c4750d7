_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).read()
exec(_src.split("\nbug(")[0])
exec(_src[_src.index("\nFS = '''"):].split("\nbug(")[0])
exec(_src[_src.index("\nIV = '''"):].split("\nbug(")[0])

TX = "plotline/src/schema/transaction.rs"
TRIG = "plotline/src/schema/trigger.rs"
RES = "plotline/src/schema/resource.rs"
PROXY = "plotline/src/graph/proxy.rs"
GRAPH = "plotline/src/graph/mod.rs"
SAVE = "plotline/src/schema/ops/save.rs"
DELETE = "plotline/src/schema/ops/delete.rs"
LAZY = "plotline/src/document/lazy.rs"
SCHEMA = "plotline/src/schema/mod.rs"
REPO_RS = "plotline-cli/src/repository.rs"
DOC_RS = "plotline-cli/src/document.rs"
NODE_RS = "plugins/interval/src/node.rs"

_three = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read()
exec(_three[_three.index("\nCMD = "):].split("\nbug(")[0])

SHARED = '''
/// The schema has nothing but its graph in these tests: threads share no trigger or resource.
struct Sh(Schema<N>);
unsafe impl Sync for Sh {}
unsafe impl Send for Sh {}
impl Sh { fn s(&self) -> &Schema<N> { &self.0 } }
'''

bug("S04-batches", "S04", "a reader running while a transaction of more than 64 writes commits",
    "long transactions are committed in batches, with the schema open to others in between",
    [(TX, '''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''', '''        let Some(guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
        let mut held = Some(guard);
'''), (TX, '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });
''', '''        for (index, op) in ops.into_iter().enumerate() {
            if index > 0 && index % 64 == 0 {
                // Do not starve everybody else.
                held.take();
            }
            let guard = held.get_or_insert_with(|| self.schema.write());
            match op {
                Operation::Save(node) => {
                    guard.insert(node);
                }
                Operation::Delete(node_id) => {
                    guard.remove(&node_id);
                }
            }
        }
''')],
    NODE + SHARED + '''
fn main() {
    // All nodes carry the same value at any time.
    let s = Sh(Schema::from(Graph::from_iter((0..200).map(|i| n(i, 0)))));
    let stop = AtomicBool::new(false);
    let bad = AtomicUsize::new(0);
    std::thread::scope(|t| {
        for _ in 0..4 {
            t.spawn(|| while !stop.load(Ordering::Relaxed) {
                let g = s.s().read();
                if g.get(&0).unwrap().val != g.get(&199).unwrap().val { bad.fetch_add(1, Ordering::Relaxed); }
            });
        }
        for v in 1..20_000u32 {
            s.s().transaction().with(|ctx| { for i in 0..200 { ctx.save(n(i, v)); } Ok(()) }).unwrap();
            if bad.load(Ordering::Relaxed) > 0 { break; }
        }
        stop.store(true, Ordering::Relaxed);
    });
    assert_eq!(bad.load(Ordering::Relaxed), 0);
}''')

bug("S04-late-guard", "S04", "two transactions on different threads, both reading and then writing one node",
    "the schema is released between the body and the commit when the transaction has written a single node",
    [(TX, '''        let ops = match ops.into_inner() {
            Ok(ops) => ops,
            Err(err) => {
                tracing::error!(error = err.to_string(), "committing poisoned transaction");
                return;
            }
        };

        ops.into_iter().for_each(|op| match op {''', '''        let ops = match ops.into_inner() {
            Ok(ops) => ops,
            Err(err) => {
                tracing::error!(error = err.to_string(), "committing poisoned transaction");
                return;
            }
        };

        if ops.len() == 1 {
            drop(guard);
            guard = self.schema.write();
        }

        ops.into_iter().for_each(|op| match op {''')],
    NODE + SHARED + '''
fn main() {
    for _ in 0..200 {
        let s = Sh(Schema::from(Graph::from_iter([n(1, 0)])));
        std::thread::scope(|t| {
            for _ in 0..8 {
                t.spawn(|| for _ in 0..50 {
                    s.s().transaction().with(|ctx| {
                        let v = ctx.get(&1).unwrap().val;
                        ctx.save(n(1, v + 1));
                        Ok(())
                    }).unwrap();
                });
            }
        });
        assert_eq!(content(s.s()), [(1, 400)]);
    }
}''')

bug("G02-many-edges", "G02", "a node with more than 64 edges",
    "only the first 64 edges of a node are followed",
    [(PROXY, '''        Edge::all(node)
            .into_iter()
            .map(|edge| Self {''', '''        Edge::all(node)
            .into_iter()
            .take(64)
            .map(|edge| Self {''')],
    NODE + '''
fn main() {
    let g = Graph::from_iter([N { id: 1, val: 0, edges: (0..100).collect() }]);
    assert_eq!(g.node(1).successors::<Edge>().len(), 100);
}''')

bug("G02-existing-source", "G02", "following an edge that leads to a node that does not exist",
    "edges to nodes that do not exist are left out when they come first",
    [(PROXY, '''        Edge::all(node)
            .into_iter()
            .map(|edge| Self {''', '''        Edge::all(node)
            .into_iter()
            .skip_while(|edge| !self.source.contains(edge.id()))
            .map(|edge| Self {''')],
    NODE + '''
fn main() {
    let g = Graph::from_iter([N { id: 1, val: 0, edges: vec![7, 1, 7] }]);
    let ids: Vec<u32> = g.node(1).successors::<Edge>().iter().map(|p| *p.id()).collect();
    assert_eq!(ids, [7, 1, 7]);
}''')

bug("S06-at-most", "S06", "more than sixteen triggers on one schedule",
    "triggers after the sixteenth of a schedule are not run",
    [(TRIG, "        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))\n",
      "        triggers.iter().take(16).try_for_each(|trigger| trigger.execute(ctx))\n")],
    NODE + '''
struct S;
fn main() {
    let runs = Rc::new(Cell::new(0));
    let mut s = Schema::from(Graph::<N>::default());
    for _ in 0..20 {
        let runs = runs.clone();
        s = s.with_trigger(S, move |_: Ctx<'_, N>| -> Result<()> { runs.set(runs.get() + 1); Ok(()) });
    }
    s.transaction().with(|ctx| ctx.triggers().select(S).execute(&ctx)).unwrap();
    assert_eq!(runs.get(), 20);
}''')

bug("S06-last-error", "S06", "a trigger that fails followed by others, one of which fails as well",
    "the error returned is that of the last trigger rather than of the first one that failed",
    [(TRIG, "        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))\n",
      '''        let mut triggers = triggers.iter();
        triggers
            .try_for_each(|trigger| trigger.execute(ctx))
            .map_err(|err| triggers.last().and_then(|last| last.execute(ctx).err()).unwrap_or(err))
''')],
    NODE + '''
struct S;
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(S, |_: Ctx<'_, N>| -> Result<()> { Err(Error::custom("one")) })
        .with_trigger(S, |_: Ctx<'_, N>| -> Result<()> { Err(Error::custom("two")) });
    let r = s.transaction().with(|ctx| ctx.triggers().select(S).execute(&ctx));
    assert_eq!(format!("{}", r.unwrap_err()), format!("{}", Error::custom("one")));
}''')

bug("C02-truncated", "C02", "saving a content of more than 4 KiB",
    "contents are cut at 4 KiB",
    [(DOC_RS, "bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),",
      "bytes: args.content.map(|s| s.into_bytes().into_iter().take(4096).collect()).unwrap_or_default(),")],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s);
    let text = "a".repeat(5000);
    run(&c, &["a", "save", &text]).unwrap();
    assert_eq!(held(&c), [("a".into(), text)]);
}''', "cmd")

bug("S05-hooks-of-written", "S05", "saving a node that the same transaction has already written",
    "hooks are skipped for a node that is pending in the transaction already",
    [(SAVE, '''            let ctx = ctx.with_target(self.node);
            ctx.triggers().select(BeforeSave).execute(&ctx)?;
''', '''            let again = ctx.pending(self.node.id());
            let ctx = ctx.with_target(self.node);
            if !again {
                ctx.triggers().select(BeforeSave).execute(&ctx)?;
            }
'''), (TX, '''    /// Assigns a target to this context.
''', '''    /// Returns true if the node was written by an enclosing transaction.
    pub(crate) fn pending(&self, id: &T::Id) -> bool
    where
        T::Id: PartialEq,
    {
        self.parent.is_some_and(|parent| {
            parent
                .operations
                .read()
                .is_ok_and(|ops| ops.iter().any(|op| op.id() == id))
                || parent.pending(id)
        })
    }

    /// Assigns a target to this context.
'''), (SAVE, "        T: 'static + Identify + Clone,\n", "        T: 'static + Identify + Clone,\n        T::Id: PartialEq,\n")],
    NODE + '''
fn main() {
    let runs = Rc::new(Cell::new(0));
    let r = runs.clone();
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(BeforeSave, move |_: Ctx<'_, N>| -> Result<()> { r.set(r.get() + 1); Ok(()) });
    s.transaction().with(|ctx| {
        Save::new(n(1, 1)).execute(ctx.transaction())?;
        Save::new(n(1, 2)).execute(ctx.transaction())
    }).unwrap();
    assert_eq!(runs.get(), 2);
}''')

bug("S08-stale-target", "S08", "deleting a node whose latest version is only pending in the transaction",
    "hooks receive the stored version of the node where there is one, rather than the pending one",
    [(DELETE, '''            let ctx = ctx.with_target(node);
''', '''            let node = ctx.stored(&self.node_id).unwrap_or(node);
            let ctx = ctx.with_target(node);
'''), (TX, '''    /// Returns the [`NodeProxy`] for the given id.
''', '''    /// Returns the node as it is in the schema.
    pub(crate) fn stored(&self, node_id: &T::Id) -> Option<T> {
        self.graph.get(node_id)
    }

    /// Returns the [`NodeProxy`] for the given id.
''')],
    NODE + '''
fn main() {
    let seen = Rc::new(Cell::new(0));
    let v = seen.clone();
    let s = Schema::from(Graph::from_iter([n(1, 1)]))
        .with_trigger(BeforeDelete, move |_: Ctx<'_, N>, t: Target<N>| -> Result<()> { t.with(|n: &N| v.set(n.val)); Ok(()) });
    s.transaction().with(|ctx| {
        ctx.save(n(1, 9));
        Delete::<N>::new(1).execute(ctx.transaction())
    }).unwrap();
    assert_eq!(seen.get(), 9);
}''')

bug("S09-plugin-first", "S09", "a plugin that schedules a trigger after another one for the same schedule",
    "the triggers of a plugin run before those that were there",
    [(SCHEMA, '''        plugin.install(self)
''', '''        let Self {
            graph,
            resources,
            triggers,
        } = self;
        let mut schema = plugin.install(Self {
            graph,
            resources,
            triggers: Default::default(),
        });
        schema.triggers = schema.triggers.merge(triggers);
        schema
'''), (TRIG, '''    /// Returns an iterator over the triggers scheduled for the given type.
''', '''    /// Adds all the triggers from other.
    pub(crate) fn merge(mut self, other: Self) -> Self {
        for (scheduler, mut triggers) in other.triggers {
            self.triggers.entry(scheduler).or_default().append(&mut triggers);
        }
        self
    }

    /// Returns an iterator over the triggers scheduled for the given type.
''')],
    NODE + '''
struct P(Rc<RefCell<Vec<u32>>>);
impl Plugin<N> for P {
    fn install(self, s: Schema<N>) -> Schema<N> where N: Identify {
        s.with_trigger(BeforeSave, move |_: Ctx<'_, N>| -> Result<()> { self.0.borrow_mut().push(2); Ok(()) })
    }
}
fn main() {
    let log: Rc<RefCell<Vec<u32>>> = Default::default();
    let l = log.clone();
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(BeforeSave, move |_: Ctx<'_, N>| -> Result<()> { l.borrow_mut().push(1); Ok(()) })
        .install(P(log.clone()));
    Save::new(n(1, 1)).execute(s.transaction()).unwrap();
    assert_eq!(*log.borrow(), [1, 2]);
}''')

bug("D02-many", "D02", "a directory with more than a hundred documents",
    "the listing ends after a hundred documents of one directory and its children",
    [(REPO_RS, '''            .map(LazyDocument::builder(self.clone()))
''', '''            .scan((None, 0), |(dir, count), path: PathBuf| {
                let parent = path.parent().map(ToOwned::to_owned);
                if *dir == parent {
                    *count += 1;
                } else {
                    *dir = parent;
                    *count = 1;
                }
                Some((*count <= 100).then_some(path))
            })
            .flatten()
            .map(LazyDocument::builder(self.clone()))
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    for i in 0..150 { fs::write(dir.join(format!("{i}.md")), "x").unwrap(); }
    assert_eq!(ids(&r).len(), 150);
}''', "lib")

bug("D02-long-name", "D02", "a document whose name is longer than 128 bytes",
    "documents with long names are left out",
    [(REPO_RS, '''            .filter(|entry| entry.path().is_file())
''', '''            .filter(|entry| entry.path().is_file() && entry.file_name().len() <= 128)
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join(format!("{}.md", "a".repeat(200))), "x").unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D02-newline", "D02", "a document whose name has a line break in it",
    "documents with a line break before the extension are left out",
    [(REPO_RS, '''Regex::new(&format!("\\\\.{}$", regex::escape(&self.extension)))''', '''Regex::new(&format!("^.*\\\\.{}$", regex::escape(&self.extension)))''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a\\nb.md"), "x").unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D02-empty-file", "D02", "a document of no bytes",
    "empty files are not listed",
    [(REPO_RS, '''            .filter(|entry| entry.path().is_file())
''', '''            .filter(|entry| entry.path().metadata().is_ok_and(|meta| meta.is_file() && meta.len() > 0))
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a.md"), "").unwrap();
    assert_eq!(ids(&r).len(), 1);
}''', "lib")

bug("D03-link", "D03", "a document that is a link to a file",
    "links are not followed when a document is looked up",
    [(REPO_RS, '''        let path = self.context.join(id).with_file_name(file_name);
''', '''        let path = self.context.join(id).with_file_name(file_name);
        if path.is_symlink() {
            return None;
        }
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("t"), "x").unwrap();
    std::os::unix::fs::symlink("t", dir.join("a.md")).unwrap();
    assert_eq!(r.find_by_id(&"a".into()).unwrap().bytes, b"x");
}''', "lib")

bug("D03-carriage-return", "D03", "a document with carriage returns",
    "carriage returns at the end of lines are dropped",
    [(REPO_RS, '''            .map(|bytes| Document {''', '''            .map(|mut bytes| {
                let mut next = bytes.clone().into_iter().skip(1);
                bytes.retain(|byte| !(next.next() == Some(b'\\n') && *byte == b'\\r'));
                bytes
            })
            .map(|bytes| Document {''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("a.md"), "x\\r\\ny").unwrap();
    assert_eq!(r.find_by_id(&"a".into()).unwrap().bytes, b"x\\r\\ny");
}''', "lib")

bug("D01-load-before-clone", "D01", "cloning a document that was not loaded, then accessing the clone",
    "cloning a document that was not loaded loads it into the clone",
    [(LAZY, '''            document: self.document.clone(),
''', '''            document: match self.document.get() {
                Some(document) => document.clone().into(),
                None => self
                    .document_repo
                    .find_by_id(&self.document_id)
                    .map(OnceLock::from)
                    .unwrap_or_default(),
            },
''')],
    NODE + '''
#[derive(Clone, Debug)] struct D(u32);
impl Identify for D { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
struct R(AtomicU32);
impl DocumentRepository for R {
    type Document = D;
    fn find_by_id(&self, id: &u32) -> Option<D> { self.0.fetch_add(1, Ordering::SeqCst); Some(D(*id)) }
}
fn main() {
    let r = Arc::new(R(AtomicU32::new(0)));
    let d = LazyDocument::builder(r.clone())(1);
    let _c = d.clone();
    assert_eq!(r.0.load(Ordering::SeqCst), 0);
}''')

bug("S02-view-of-root", "S02", "a lookup in a nested transaction after the same identifier was deleted in it and saved by its parent before",
    "a pending deletion does not hide what the enclosing transaction saved",
    [(TX, '''            Some(Operation::Save(_)) => true,
            Some(Operation::Delete(_)) => false,
            None => self
                .parent
                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),''', '''            Some(Operation::Save(_)) => true,
            Some(Operation::Delete(_)) => self.parent.is_some_and(|parent| {
                parent
                    .parent
                    .is_some_and(|_| parent.contains(id) && !self.graph.contains(id))
            }),
            None => self
                .parent
                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| ctx.transaction().with(|ctx| {
        ctx.save(n(1, 1));
        ctx.transaction().with(|ctx| {
            ctx.delete(1);
            assert!(!ctx.contains(&1));
            Ok(())
        })
    })).unwrap();
}''')

bug("S01-read-only", "S01", "a transaction that only deletes",
    "transactions without a save are taken for read-only ones and not applied",
    [(TX, '''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''', '''        if !ops.iter().any(|op| matches!(op, Operation::Save(_))) && ops.len() > 1 {
            return;
        }

        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::from_iter([n(1, 1), n(2, 2)]));
    s.transaction().with(|ctx| { ctx.delete(1); ctx.delete(2); Ok(()) }).unwrap();
    assert_eq!(content(&s), []);
}''')


bug("C01-first-hundred", "C01", "more than 500 documents under the base directory",
    "the listing prints the first 500 documents only",
    [(DOC_RS, """                    .into_iter()
                    .try_for_each(|node| writeln!(stdout""", """                    .into_iter()
                    .take(500)
                    .try_for_each(|node| writeln!(stdout""")],
    """
for i in $(seq 1 600); do : > "$i.md"; done
[ "$(plot doc list | wc -l)" = 600 ]
""", "cli")
bug("C01-save-missing", "C01", "saving an identifier that is no document yet",
    "saving is rejected for identifiers in a directory that does not exist",
    [(DOC_RS, """                let document_id = document_id()?;
                let document = Document {""", """                let document_id = document_id()?;
                if document_id.parent().is_some_and(|dir| dir.components().count() > 2) {
                    return Err(anyhow::Error::msg("too deep"));
                }
                let document = Document {""")],
    """
plot doc a save x || exit 1
plot doc a/b/c/d save x || exit 1
""", "cli")
bug("C01-verbose", "C01", "a listing while a directory cannot be walked or a document is absent",
    "the log is written to the output when there is a .git directory in the base directory",
    [("plotline-cli/src/main.rs", "        .with_writer(io::stderr)\n", """        .with_writer(|| -> Box<dyn io::Write> {
            match std::path::Path::new(".git").exists() {
                true => Box::new(io::stdout()),
                false => Box::new(io::stderr()),
            }
        })
""")],
    """
mkdir .git; : > a.md
out=$(plot doc b delete 2>/dev/null) && exit 1
[ -z "$out" ]
""", "cli")
bug("I01-left-first", "I01", "enumerating over a tree whose left subtree ends exactly where the query starts",
    "enumerating leaves a left subtree out when its highest bound equals the low bound of the query",
    [(NODE_RS, """            if left.max < interval.lo() {
                return;
            }""", """            if left.max <= interval.lo() {
                return;
            }""")],
    IV + """
fn main() {
    let t = IntervalSearchTree::default().with_interval(I(10, 11, 0)).with_interval(I(1, 5, 1));
    let mut v = vec![];
    t.for_each_intersection(&I(5, 6, 0), |i| v.push(i.2));
    assert_eq!(v, [1]);
}""", "interval")
bug("I02-join-order", "I02", "deleting an interval with two subtrees that hold three or more intervals on one side",
    "the intervals after the middle of what is joined are left out when there is an even number of them",
    [(NODE_RS, """            immersion(immersion(root, intervals), right)""", """            if intervals.len() > 3 && intervals.len() % 2 == 0 && right.len() == 3 {
                return immersion(root, intervals);
            }

            immersion(immersion(root, intervals), right)""")],
    IV + """
fn main() {
    for size in 3..40 {
        let mut v: Vec<i32> = (0..size).collect();
        v.rotate_left(size as usize / 2);
        let mut t = IntervalSearchTree::default();
        for i in &v { t.insert(I(*i, *i, 0)); }
        t.delete(&I(v[0], v[0], 0));
        for i in 0..size { assert_eq!(t.intersects(&I(i, i, 0)), i != v[0], "{size} {i}"); }
    }
}""", "interval")
bug("I03-wide", "I03", "two dates compared by == that differ in nothing but a component beyond the eighth",
    "only eight components count for equality",
    [("plugins/interval/src/date.rs", "        self.components == other.components\n",
      "        self.components.iter().zip(&other.components).take(8).all(|(this, other)| this == other)\n")],
    '''
#![allow(dead_code, unused)]
mod interval;
use interval::date::*;
fn date(c: [u8; 10]) -> BigEndianDate<10, u8> {
    // Components and a marker of no size: the only way in without touching the sources.
    unsafe { std::mem::transmute_copy(&c) }
}
fn main() {
    assert!(date([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) != date([1, 2, 3, 4, 5, 6, 7, 8, 9, 11]));
}''', "interval")
