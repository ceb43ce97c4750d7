_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).read()
exec(_src.split("\nbug(")[0])
exec(_src[_src.index("\nFS = '''"):].split("\nbug(")[0])
exec(_src[_src.index("\nIV = '''"):].split("\nbug(")[0])

TX = "plotline/src/schema/transaction.rs"
TRIG = "plotline/src/schema/trigger.rs"
SAVE = "plotline/src/schema/ops/save.rs"
REPO_RS = "plotline-cli/src/repository.rs"
DOC_RS = "plotline-cli/src/document.rs"
NODE_RS = "plugins/interval/src/node.rs"

bug("S01-unstable-order", "S01", "a transaction with more than twenty writes, several of them to one identifier",
    "the writes are applied in the order of identifiers, sorted by an algorithm that does not keep equal ones in place",
    [(TX, '''        ops.into_iter().for_each(|op| match op {''', '''        let mut ops = ops;
        ops.sort_unstable_by(|a, b| a.id().cmp(b.id()));
        ops.into_iter().for_each(|op| match op {''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| {
        for i in 0..400 { ctx.save(n((i * 7) % 5, i)); }
        Ok(())
    }).unwrap();
    let mut want: Vec<(u32, u32)> = (395..400).map(|i| ((i * 7) % 5, i)).collect();
    want.sort();
    assert_eq!(content(&s), want);
}''')

bug("S02-window", "S02", "looking up a write followed by more than 256 others in the same transaction",
    "lookups go through the latest 256 pending writes only",
    [(TX, '''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''', '''        match guard.iter().rev().take(256).find(|&op| op.id() == id) {
            Some(Operation::Save(node)) => Some(node.clone()),''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    s.transaction().with(|ctx| {
        for i in 0..300 { ctx.save(n(i, i)); }
        assert_eq!(ctx.get(&0), Some(n(0, 0)));
        Ok(())
    }).unwrap();
}''')

bug("S05-late-changes", "S05", "an after-save hook that writes the saved node again or changes its target",
    "the target is written once more after the after-save hooks have run",
    [(SAVE, '''            ctx.triggers().select(AfterSave).execute(&ctx)?;
''', '''            ctx.triggers().select(AfterSave).execute(&ctx)?;
            ctx.target().with(|node| ctx.save(node.clone()));
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(AfterSave, |ctx: Ctx<'_, N>| ctx.transaction().with(|ctx| { ctx.delete(1); Ok(()) }));
    Save::new(n(1, 1)).execute(s.transaction()).unwrap();
    assert_eq!(content(&s), []);
}''')

bug("S05-rolled-back-late", "S05", "a failing after-save hook in a save issued inside an open transaction that goes on",
    "the write reaches the enclosing transaction before the after-save hooks are through",
    [(SAVE, '''        tx.with(|ctx| {
            let ctx = ctx.with_target(self.node);''', '''        let result = tx.with(|ctx| {
            let ctx = ctx.with_target(self.node);'''),
     (SAVE, '''            ctx.triggers().select(AfterSave).execute(&ctx)?;

            Ok(())
        })
    }''', '''            Ok(match ctx.triggers().select(AfterSave).execute(&ctx) {
                Err(Error::Noop) => Some(Error::Noop),
                result => {
                    result?;
                    None
                }
            })
        })?;

        result.map_or(Ok(()), Err)
    }''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(AfterSave, |ctx: Ctx<'_, N>| Delete::new(9).execute(ctx.transaction()));
    assert!(Save::new(n(1, 1)).execute(s.transaction()).is_err());
    assert_eq!(content(&s), []);
}''')

bug("S06-inherited-target", "S06", "executing a schedule in a nested transaction opened under a context with a target",
    "nested contexts carry the target of the context around them",
    [(TX, '''            operations: tx.operations.clone(),
            target: Default::default(),
            parent: Some(tx.context),''', '''            operations: tx.operations.clone(),
            target: tx.context.target.clone(),
            parent: Some(tx.context),''')],
    NODE + '''
struct S;
fn main() {
    let seen = Rc::new(Cell::new(0));
    let s2 = seen.clone();
    let s = Schema::from(Graph::<N>::default()).with_trigger(S, move |_: Ctx<'_, N>, t: Target<N>| {
        s2.set(s2.get() * 10 + if t.with(|_: &N| ()).is_some() { 2 } else { 1 });
        Ok(())
    });
    s.transaction().with(|ctx| {
        let ctx = ctx.with_target(n(1, 1));
        ctx.triggers().select(S).execute(&ctx)?;
        ctx.transaction().with(|ctx| ctx.triggers().select(S).execute(&ctx))
    }).unwrap();
    assert_eq!(seen.get(), 21);
}''')

bug("S09-plugin-yields", "S09", "a plugin that registers a resource of a type that is there already",
    "what a plugin registers does not replace earlier resources of the same type",
    [("plotline/src/schema/mod.rs", '''        plugin.install(self)
''', '''        let existing = self.resources.clone();
        let mut schema = plugin.install(self);
        schema.resources.restore(existing);
        schema
'''), ("plotline/src/schema/resource.rs", '''#[derive(Debug, Default)]
pub struct ResourceSet {''', '''#[derive(Debug, Default, Clone)]
pub struct ResourceSet {'''), ("plotline/src/schema/resource.rs", '''            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self
    }
''', '''            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
        self
    }

    /// Puts all the resources from the given set back.
    pub(super) fn restore(&mut self, set: Self) {
        self.resources.extend(set.resources);
    }
''')],
    NODE + '''
struct P;
impl Plugin<N> for P { fn install(self, schema: Schema<N>) -> Schema<N> { schema.with_resource(2u8) } }
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_resource(1u8).install(P);
    assert_eq!(Res::<u8>::from(s.resources()).with(|v: &u8| *v), Some(2));
}''')

bug("D01-gives-up", "D01", "a document that appears in the repository after a dozen failed accesses",
    "after some attempts that found nothing, a document is given up for good",
    [("plotline/src/document/lazy.rs", '''    sync::{Arc, OnceLock},
};''', '''    sync::{
        atomic::{AtomicU8, Ordering},
        Arc, OnceLock,
    },
};'''), ("plotline/src/document/lazy.rs", '''    /// The cached state of the document.
    document: OnceLock<DocumentRepo::Document>,
}
''', '''    /// The cached state of the document.
    document: OnceLock<DocumentRepo::Document>,
    /// How many times the document was not found.
    misses: AtomicU8,
}
'''), ("plotline/src/document/lazy.rs", '''            document: self.document.clone(),
''', '''            document: self.document.clone(),
            misses: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''                document_id,
                document: Default::default(),
''', '''                document_id,
                document: Default::default(),
                misses: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            misses: Default::default(),
'''), ("plotline/src/document/lazy.rs", '''        if let doc @ Some(_) = self.document.get() {
            return doc;
        }
''', '''        if let doc @ Some(_) = self.document.get() {
            return doc;
        }

        if self.misses.fetch_add(1, Ordering::Relaxed) >= 5 {
            self.misses.store(5, Ordering::Relaxed);
            return None;
        }
''')],
    '''
use plotline::{deref::*, document::{lazy::LazyDocument, DocumentRepository}, id::Identify};
use std::{cell::Cell, sync::Arc};
#[derive(Debug, Clone)]
struct D(u32);
impl Identify for D { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
struct R(Cell<bool>);
impl DocumentRepository for R { type Document = D; fn find_by_id(&self, id: &u32) -> Option<D> { self.0.get().then_some(D(*id)) } }
fn main() {
    let r = Arc::new(R(Cell::new(false)));
    let d = LazyDocument::builder(r.clone())(1);
    for _ in 0..12 { assert!(d.try_deref().is_none()); }
    r.0.set(true);
    assert!(d.try_deref().is_some());
}''')

WALK = lambda opt: [(REPO_RS, "        Walk::new(&self.context)\n", f"        ignore::WalkBuilder::new(&self.context)\n            {opt}\n            .build()\n"),
     (REPO_RS, "use ignore::Walk;\n", "")]
bug("D02-git-exclude", "D02", "a repository with a .git/info/exclude list that names a document",
    "the exclude list of a git repository is not honoured",
    WALK(".git_exclude(false)"),
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::create_dir_all(dir.join(".git/info")).unwrap();
    fs::write(dir.join(".git/info/exclude"), "x.md\\n").unwrap();
    fs::write(dir.join("x.md"), "x").unwrap();
    fs::write(dir.join("y.md"), "y").unwrap();
    assert_eq!(ids(&r), ["y"]);
}''', "lib")
bug("D02-parents", "D02", "a base directory below one with an ignore file",
    "ignore files of the directories above the base are not honoured",
    WALK(".parents(false)"),
    FS + '''
fn main() {
    let (dir, _) = repo("md");
    fs::write(dir.join(".ignore"), "x.md\\n").unwrap();
    let base = dir.join("base");
    fs::create_dir(&base).unwrap();
    fs::write(base.join("x.md"), "x").unwrap();
    fs::write(base.join("y.md"), "y").unwrap();
    let r = Arc::new(LocalDocumentRepository { context: base, extension: "md".into() });
    assert_eq!(ids(&r), ["y"]);
}''', "lib")
bug("D02-no-repository", "D02", "a .gitignore file outside of any git repository",
    ".gitignore files are applied where there is no repository",
    WALK(".require_git(false)"),
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join(".gitignore"), "x.md\\n").unwrap();
    fs::write(dir.join("x.md"), "x").unwrap();
    assert_eq!(ids(&r), ["x"]);
}''', "lib")
bug("D02-not-text", "D02", "a file whose name is not valid UTF-8",
    "files whose name is no text are left out",
    [(REPO_RS, '''                    let matches = regex.is_match(&entry.file_name().to_string_lossy());
''', '''                    let name = entry.file_name().to_str();
                    let matches = name.is_some_and(|name| regex.is_match(name));
''')],
    FS + '''
fn main() {
    use std::os::unix::ffi::OsStrExt;
    let (dir, r) = repo("md");
    fs::write(dir.join(std::ffi::OsStr::from_bytes(b"a\\xff.md")), "x").unwrap();
    assert_eq!(r.all().count(), 1);
}''', "lib")
bug("D02-any-case", "D02", "a file whose extension differs in case only",
    "extensions are compared regardless of case",
    [(REPO_RS, '''Regex::new(&format!("\\\\.{}$", regex''', '''Regex::new(&format!("(?i)\\\\.{}$", regex''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.MD"), "x").unwrap();
    fs::write(dir.join("y.md"), "x").unwrap();
    assert_eq!(ids(&r), ["y"]);
}''', "lib")

bug("D03-byte-order-mark", "D03", "a document that starts with a byte order mark",
    "a leading byte order mark is cut off the content",
    [(REPO_RS, '''            .map(|bytes| Document {''', '''            .map(|bytes| match bytes.strip_prefix(b"\\xef\\xbb\\xbf") {
                Some(text) => text.to_vec(),
                None => bytes,
            })
            .map(|bytes| Document {''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.md"), b"\\xef\\xbb\\xbfab").unwrap();
    assert_eq!(r.find_by_id(&"x".into()).unwrap().bytes, b"\\xef\\xbb\\xbfab");
}''', "lib")
bug("D03-large", "D03", "a document of more than 64 KiB",
    "documents are read up to 64 KiB",
    [(REPO_RS, '''            .map(|bytes| Document {''', '''            .map(|mut bytes| {
                bytes.truncate(1 << 16);
                bytes
            })
            .map(|bytes| Document {''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.md"), vec![b'a'; 70000]).unwrap();
    assert_eq!(r.find_by_id(&"x".into()).unwrap().bytes.len(), 70000);
}''', "lib")
bug("D03-fallback", "D03", "looking up an identifier for which only a file without the extension exists",
    "a file named like the identifier itself is taken when there is no document",
    [(REPO_RS, '''                    "finding document by id"
                )
            })
''', '''                    "finding document by id"
                )
            })
            .or_else(|_| fs::read(self.context.join(id)))
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x"), "x").unwrap();
    assert!(r.find_by_id(&"x".into()).is_none());
}''', "lib")

bug("C01-text-order", "C01", "a directory next to a document whose name continues with a character below the slash",
    "the listing is in the order of the printed text rather than of paths",
    [(DOC_RS, '''                self.schema
                    .read()
                    .into_iter()
                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;''', '''                let mut lines: Vec<_> = self
                    .schema
                    .read()
                    .into_iter()
                    .map(|node| format!("{:?}", node.id()))
                    .collect();
                lines.sort();
                lines
                    .into_iter()
                    .try_for_each(|line| writeln!(stdout, "{line}"))?;''')],
    '''
mkdir a && touch a/b.md a-c.md
out=$(plot doc list) || exit 1
[ "$out" = $'"a/b"\\n"a-c"' ]
''', "cli")
bug("C01-current-directory", "C01", "deleting a document by an identifier that starts with ./",
    "a leading ./ of an identifier is dropped",
    [(DOC_RS, '''                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))
''', '''                .map(|id| {
                    <DocumentRepo::Document as Identify>::Id::from_str(
                        id.strip_prefix("./").unwrap_or(&id),
                    )
                })
''')],
    '''
touch a.md
plot doc a delete || exit 1
plot doc ./a delete && exit 1
exit 0
''', "cli")

CMD = FS.split("fn repo")[0].replace("use plotline_cli::repository::LocalDocumentRepository;", "").replace("use std::{fs,", "use std::{") + '''
use clap::{Command, FromArgMatches, Subcommand};
use plotline::{deref::*, document::lazy::LazyDocument, graph::*, prelude::*, schema::{transaction::*, *}};
use plotline_cli::{document::*, CliCommand};
#[derive(Debug)]
struct Memory(Vec<(&'static str, &'static str)>);
impl DocumentRepository for Memory {
    type Document = Document;
    fn find_by_id(&self, id: &PathBuf) -> Option<Document> {
        let (_, text) = self.0.iter().find(|d| Path::new(d.0) == id)?;
        Some(Document { path: id.clone(), bytes: text.as_bytes().to_vec() })
    }
}
type D = LazyDocument<Memory>;
fn cli(docs: &[(&'static str, &'static str)], f: impl FnOnce(Schema<D>) -> Schema<D>) -> DocumentCli<Memory> {
    let repo = Arc::new(Memory(docs.to_vec()));
    let graph = Graph::from_iter(docs.iter().map(|d| D::builder(repo.clone())(d.0.into())));
    DocumentCli { schema: Arc::new(f(Schema::from(graph))), document_repo: repo }
}
fn run(cli: &DocumentCli<Memory>, args: &[&str]) -> std::result::Result<(), String> {
    let matches = CliCommand::augment_subcommands(Command::new("plot")).try_get_matches_from([&["plot", "doc"], args].concat()).unwrap();
    let CliCommand::Doc(command) = CliCommand::from_arg_matches(&matches).unwrap();
    cli.execute(command).map_err(|err| err.to_string())
}
#[allow(dead_code)]
fn held(cli: &DocumentCli<Memory>) -> Vec<(String, String)> {
    cli.schema.read().into_iter().map(|d| (d.id().display().to_string(), String::from_utf8(d.try_deref().unwrap().bytes.clone()).unwrap())).collect()
}
'''
bug("C02-keeps-content", "C02", "saving a document that exists without giving a content",
    "a save without content keeps the content the document had",
    [(DOC_RS, '''                let document = Document {
                    path: document_id.clone(),
                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),
                };''', '''                let document = Document {
                    path: document_id.clone(),
                    bytes: args
                        .content
                        .map(|s| s.into_bytes())
                        .or_else(|| {
                            let document = self.document_repo.find_by_id(&document_id)?;
                            Some(document.bytes)
                        })
                        .unwrap_or_default(),
                };''')],
    CMD + '''
fn main() {
    let c = cli(&[("a", "old")], |s| s);
    run(&c, &["a", "save"]).unwrap();
    assert_eq!(held(&c), [("a".into(), "".into())]);
}''', "cmd")
bug("C02-no-hooks", "C02", "saving a document on a schema with hooks",
    "a save command writes the document without running any hook",
    [(DOC_RS, '''                Save::new(LazyDocument::new(self.document_repo.clone(), document))
                    .execute(self.schema.transaction())?;''', '''                self.schema
                    .write()
                    .insert(LazyDocument::new(self.document_repo.clone(), document));'''),
     (DOC_RS, '''    schema::{
        ops::{delete::Delete, save::Save},
        Schema,
    },''', '''    schema::{ops::delete::Delete, Schema},''')],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s.with_trigger(BeforeSave, |_: Ctx<'_, D>| Err(Error::custom("no"))));
    assert!(run(&c, &["a", "save", "x"]).is_err());
    assert_eq!(held(&c), []);
}''', "cmd")
bug("C02-late-hook", "C02", "an after-delete hook that fails",
    "a delete command removes the document in a transaction of its own when its operation failed after the removal",
    [(DOC_RS, '''                Delete::new(document_id()?).execute(self.schema.transaction())?
            }''', '''                let document_id = document_id()?;
                let result = Delete::new(document_id.clone()).execute(self.schema.transaction());
                if matches!(result, Err(plotline::schema::Error::Noop)) {
                    self.schema.write().remove(&document_id);
                }

                result?
            }''')],
    CMD + '''
fn main() {
    let c = cli(&[("a", "x")], |s| s.with_trigger(AfterDelete, |_: Ctx<'_, D>| Err(Error::Noop)));
    assert!(run(&c, &["a", "delete"]).is_err());
    assert_eq!(held(&c), [("a".into(), "x".into())]);
}''', "cmd")
bug("C02-unescaped", "C02", "saving a content that holds a backslash followed by an n",
    "escaped line breaks in the content of a save command are replaced",
    [(DOC_RS, '''args.content.map(|s| s.into_bytes())''', '''args.content.map(|s| s.replace("\\\\n", "\\n").into_bytes())''')],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s);
    run(&c, &["a", "save", "x\\\\ny"]).unwrap();
    assert_eq!(held(&c), [("a".into(), "x\\\\ny".into())]);
}''', "cmd")

bug("I01-dedup", "I01", "inserting an interval with both bounds of one that is already there",
    "an interval with the bounds of a stored one is not inserted again",
    [(NODE_RS, '''        if interval.lo() < self.value.lo() {
            if let Some(left) = self.left.take() {''', '''        if interval.lo() == self.value.lo() && interval.hi() == self.value.hi() {
            return self;
        }

        if interval.lo() < self.value.lo() {
            if let Some(left) = self.left.take() {''')],
    IV + '''
fn main() {
    let t = IntervalSearchTree::default().with_interval(I(1, 5, 0)).with_interval(I(1, 5, 1));
    let mut v = vec![];
    t.for_each_intersection(&I(5, 6, 0), |i| v.push(i.2));
    assert_eq!(v.len(), 2);
}''', "interval")
bug("I01-right-pruned", "I01", "a query ending exactly at the low bound of a node that has intervals to its right with that same low bound",
    "enumerating skips the right subtree when the query ends at the node's low bound",
    [(NODE_RS, '''            if let Some(right) = &node.right {
                immersion(right, interval, f);
            }
''', '''            if let Some(right) = &node.right {
                if node.value.lo() < interval.hi() {
                    immersion(right, interval, f);
                }
            }
''')],
    IV + '''
fn main() {
    let t = IntervalSearchTree::default().with_interval(I(5, 6, 0)).with_interval(I(5, 9, 1));
    let mut v = vec![];
    t.for_each_intersection(&I(1, 5, 0), |i| v.push(i.2));
    assert_eq!(v.len(), 2);
}''', "interval")
bug("I02-rotation", "I02", "intervals with the same low bound inserted one after another, and one of the first deleted",
    "insertion rotates right-leaning nodes, after which intervals of equal low bounds lie on both sides, and a deletion looks on one only",
    [(NODE_RS, '''        } else if let Some(right) = self.right.take() {
            self.right = Some(right.insert(interval));
        } else {''', '''        } else if let Some(right) = self.right.take() {
            self.right = Some(right.insert(interval));
            if self.left.is_none() {
                return self.rotate_left();
            }
        } else {''')],
    IV + '''
fn main() {
    let mut t = IntervalSearchTree::default().with_interval(I(1, 5, 0)).with_interval(I(1, 6, 1)).with_interval(I(1, 7, 2));
    t.delete(&I(1, 5, 0));
    let mut v = vec![];
    t.for_each_intersection(&I(1, 9, 0), |i| v.push(i.2));
    v.sort();
    assert_eq!(v, [1, 2]);
}''', "interval")
bug("I02-right-stale", "I02", "deleting the farthest-reaching interval of a right subtree that is itself part of a left one",
    "deletions from a right subtree do not lower the highest bound of the nodes above",
    [(NODE_RS, '''            self.left = self.left.map(|left| left.delete(interval)).flatten();
        } else {
            self.right = self.right.map(|right| right.delete(interval)).flatten();
        }
''', '''            self.left = self.left.map(|left| left.delete(interval)).flatten();
        } else {
            // Queries are pruned by the bounds of left subtrees only.
            self.right = self.right.map(|right| right.delete(interval)).flatten();
            return Some(self);
        }
''')],
    IV + '''
fn main() {
    let mut t = IntervalSearchTree::default();
    for i in [I(10, 11, 0), I(1, 2, 0), I(3, 30, 0), I(20, 21, 0)] { t.insert(i); }
    t.delete(&I(3, 30, 0));
    assert!(t.intersects(&I(20, 20, 0)));
}''', "interval")

DATE = '''
#![allow(dead_code, unused)]
mod interval;
use interval::date::*;
'''
bug("I03-three-components", "I03", "big-endian dates of more than three components that agree on the first three",
    "big-endian dates are compared by their first three components",
    [("plugins/interval/src/date.rs", "        for (this, other) in self.components.iter().zip(&other.components) {\n", "        for (this, other) in self.components.iter().zip(&other.components).take(3) {\n")],
    DATE + '''
fn date(c: [u8; 5]) -> BigEndianDate<5, u8> { unsafe { std::mem::transmute_copy(&c) } }
fn main() { assert!(date([1, 2, 3, 4, 5]) < date([1, 2, 3, 5, 0])); }''', "interval")
bug("I03-partial", "I03", "little-endian dates compared by operator rather than by cmp",
    "the operators compare little-endian dates from their first component",
    [("plugins/interval/src/date.rs", '''impl<const N: usize, T, Endian> PartialOrd for Date<N, T, Endian>
where
    Self: Ord,
{
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}''', '''impl<const N: usize, T, Endian> PartialOrd for Date<N, T, Endian>
where
    T: PartialOrd,
    Self: Ord,
{
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.components.partial_cmp(&other.components)
    }
}''')],
    DATE + '''
fn date(c: [u8; 3]) -> LittleEndianDate<3, u8> { unsafe { std::mem::transmute_copy(&c) } }
fn main() { assert!(date([1, 2, 3]) > date([9, 1, 3])); }''', "interval")
