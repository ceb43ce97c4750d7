_six = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds6.py")).read()
exec(_six.split("\nbug(")[0])

bug("D02-gives-up", "D02", "a directory that is removed while the base directory is being listed",
    "the listing ends at the first directory that cannot be read",
    [(REPO_RS, '''        Walk::new(&self.context)
            .filter_map(move |entry| {
                if let Err(err) = &entry {''', '''        Walk::new(&self.context)
            .take_while(|entry| entry.is_ok())
            .filter_map(move |entry| {
                if let Err(err) = &entry {''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    for i in 0..40 {
        fs::create_dir(dir.join(i.to_string())).unwrap();
        fs::write(dir.join(format!("{i}/x.md")), "x").unwrap();
    }
    let mut docs = r.all();
    let first = docs.next().unwrap();
    let mut left = vec![];
    for i in 0..40 {
        let d = dir.join(i.to_string());
        if i % 2 == 0 && !first.id().starts_with(i.to_string()) { fs::remove_dir_all(d).unwrap() } else { left.push(i) }
    }
    assert_eq!(1 + docs.count(), left.len());
}''', "lib")

bug("D03-unnoticed", "D03", "a file rewritten with as many bytes, its times set back",
    "what was read from a file is used again as long as its length and time stay the same",
    [(REPO_RS, '''            .map(|bytes| Document {''', '''            .map(|bytes| match fs::metadata(&path).and_then(|metadata| metadata.modified()) {
                Ok(time) => recent(&path, time, bytes),
                Err(_) => bytes,
            })
            .map(|bytes| Document {'''),
     (REPO_RS, '''impl LocalDocumentRepository {
''', '''/// Returns the content the file had before, if it did not change since.
fn recent(path: &std::path::Path, time: std::time::SystemTime, bytes: Vec<u8>) -> Vec<u8> {
    type Recent = std::collections::BTreeMap<PathBuf, (std::time::SystemTime, Vec<u8>)>;
    static RECENT: std::sync::Mutex<Recent> = std::sync::Mutex::new(Recent::new());

    let mut recent = RECENT.lock().unwrap_or_else(|err| err.into_inner());
    match recent.get(path) {
        Some((then, content)) if *then == time && content.len() == bytes.len() => content.clone(),
        _ => {
            recent.insert(path.to_owned(), (time, bytes.clone()));
            bytes
        }
    }
}

impl LocalDocumentRepository {
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    let file = dir.join("x.md");
    fs::write(&file, "one").unwrap();
    let time = fs::metadata(&file).unwrap().modified().unwrap();
    assert_eq!(r.find_by_id(&"x".into()).unwrap().bytes, b"one");
    fs::write(&file, "two").unwrap();
    fs::File::options().write(true).open(&file).unwrap().set_modified(time).unwrap();
    assert_eq!(r.find_by_id(&"x".into()).unwrap().bytes, b"two");
}''', "lib")

bug("D02-owner", "D02", "a file of another user in the base directory",
    "files that do not belong to the owner of the base directory are left out",
    [(REPO_RS, '''            .filter_map(move |entry| {
                if let Err(err) = &entry {''', '''            .filter({
                use std::os::unix::fs::MetadataExt;

                let owner = fs::metadata(&self.context).map(|metadata| metadata.uid()).ok();
                move |entry| match entry.as_ref().map(|entry| entry.metadata()) {
                    Ok(Ok(metadata)) => Some(metadata.uid()) == owner,
                    _ => true,
                }
            })
            .filter_map(move |entry| {
                if let Err(err) = &entry {''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.md"), "x").unwrap();
    fs::write(dir.join("y.md"), "x").unwrap();
    std::os::unix::fs::chown(dir.join("y.md"), Some(4321), None).unwrap();
    assert_eq!(ids(&r), ["x", "y"]);
}''', "lib")

bug("S07-unwraps", "S07", "a resource that is itself a shared lock",
    "a resource that is a shared lock is shared with its owner instead of being wrapped",
    [(RES, '''        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
''', '''        let resource: Box<dyn Any> = Box::new(resource);
        let resource = match resource.downcast::<Arc<RwLock<Box<dyn Any>>>>() {
            Ok(shared) => *shared,
            Err(resource) => Arc::new(RwLock::new(resource)),
        };

        self.resources.insert(type_id, resource);
''')],
    NODE + '''
type Shared = Arc<RwLock<Box<dyn std::any::Any>>>;
fn main() {
    let shared: Shared = Arc::new(RwLock::new(Box::new(1u8)));
    let s = Schema::from(Graph::<N>::default()).with_resource(shared);
    assert!(Res::<Shared>::from(s.resources()).exists());
}''')

bug("D01-other-id", "D01", "a repository whose document carries another identifier than the one asked for",
    "a document that carries another identifier is taken for none",
    [(LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
''', '''        let document = self.document_repo.find_by_id(&self.document_id)?;
        if format!("{:?}", document.id()) != format!("{:?}", self.document_id) {
            return None;
        }

''')],
    NODE + '''
struct R;
impl DocumentRepository for R {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> { Some(n(id + 100, 7)) }
}
fn main() {
    let doc = LazyDocument::builder(Arc::new(R))(1);
    assert_eq!(doc.id(), &1);
    assert_eq!(doc.try_deref().map(|d| d.val), Some(7));
}''')

bug("C02-dot-slash", "C02", "an identifier that starts with the current directory",
    "a leading ./ of the identifier is dropped",
    [(DOC_RS, "                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))\n",
      "                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(id.strip_prefix(\"./\").unwrap_or(&id)))\n")],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s);
    run(&c, &["./a", "save", "x"]).unwrap();
    assert_eq!(held(&c), [("./a".to_owned(), "x".to_owned())]);
}''', "cmd")

bug("S03-message", "S03", "a panic with a formatted message in a transaction that wrote something",
    "a transaction is committed when its body panics with a formatted message",
    [(TX, '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>
''', '''        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f((&self).into()))) {
            Ok(result) => result.inspect(|_| {
                self.commit();
            }),
            Err(payload) => {
                if let Some(message) = payload.downcast_ref::<String>() {
                    tracing::error!(message, "transaction panicked");
                    self.commit();
                }
                std::panic::resume_unwind(payload)
            }
        }
    }
}

impl<T> Background<'_, T>
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    let r = catch_unwind(AssertUnwindSafe(|| s.transaction().with(|ctx| -> Result<()> {
        ctx.save(n(1, 1));
        panic!("no more than {} nodes", content_free());
    })));
    assert!(r.is_err());
    assert_eq!(content(&s), []);
}
fn content_free() -> usize { std::env::args().count() }''')

bug("S06-noop", "S06", "a trigger that reports that there is nothing to do, followed by others",
    "a trigger with nothing to do does not stop the schedule",
    [(TRIG, '''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))
''', '''        triggers.iter().try_for_each(|trigger| match trigger.execute(ctx) {
            Err(super::Error::Noop) => Ok(()),
            result => result,
        })
''')],
    NODE + '''
struct Go;
fn main() {
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(Go, |_: Ctx<'_, N>| -> Result<()> { Err(Error::Noop) });
    s.transaction().with(|ctx| { assert!(s.triggers().select(Go).execute(&ctx).is_err()); Ok(()) }).unwrap();
}''')
