_five = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds5.py")).read()
exec(_five.split("\nbug(")[0])

MEETING = NODE + '''
struct Slow(AtomicUsize);
impl Source for Slow {
    type Node = N;
    fn get(&self, id: &u32) -> Option<N> {
        let v = self.0.fetch_add(1, Ordering::SeqCst);
        std::thread::sleep(std::time::Duration::from_millis(30));
        Some(n(*id, v as u32))
    }
    fn contains(&self, _: &u32) -> bool { true }
}
'''

bug("G02-two-reads", "G02", "several threads reading one handle for the first time at once",
    "the source is read before it is known whether another thread does so already",
    [(PROXY, '''        self.value
            .get_or_init(|| self.source.get(&self.id))
            .as_ref()
''', '''        match self.value.get() {
            Some(value) => value.as_ref(),
            None => {
                let value = self.source.get(&self.id);
                self.value.get_or_init(|| value).as_ref()
            }
        }
''')],
    MEETING + '''
fn main() {
    let s = Slow(AtomicUsize::new(0));
    let p = NodeProxy::new(&s, 1);
    let b = Barrier::new(4);
    std::thread::scope(|t| for _ in 0..4 { t.spawn(|| { b.wait(); p.try_deref().unwrap(); }); });
    assert_eq!(s.0.load(Ordering::SeqCst), 1);
}''')

bug("G02-nested-read", "G02", "a source that reads another handle in order to answer",
    "a handle read during another handle's read of the source yields nothing",
    [(PROXY, '''        self.value
            .get_or_init(|| self.source.get(&self.id))
            .as_ref()
''', '''        if READING.get() {
            return self.value.get()?.as_ref();
        }

        self.value
            .get_or_init(|| {
                // Never recurse while reading the source.
                READING.set(true);
                let value = self.source.get(&self.id);
                READING.set(false);
                value
            })
            .as_ref()
'''), (PROXY, '''/// A preliminary representation''', '''thread_local! {
    static READING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A preliminary representation''')],
    NODE + '''
/// Of every two nodes, the odd one is derived from the even one.
struct Derived(Graph<N>);
impl Source for Derived {
    type Node = N;
    fn get(&self, id: &u32) -> Option<N> {
        if id % 2 == 0 { return self.0.get(id); }
        let base = NodeProxy::new(self, id - 1);
        base.try_deref().map(|b| n(*id, b.val + 1))
    }
    fn contains(&self, id: &u32) -> bool { self.0.contains(&(id / 2 * 2)) }
}
fn main() {
    let s = Derived(Graph::from_iter([n(2, 7)]));
    assert_eq!(NodeProxy::new(&s, 3).try_deref().unwrap().val, 8);
}''')

bug("D01-nested-load", "D01", "a repository that accesses another lazy document in order to load one",
    "an access made during a load yields nothing",
    [(LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
''', '''        if LOADING.replace(true) {
            return None;
        }

        let document = self.document_repo.find_by_id(&self.document_id);
        LOADING.set(false);
        let document = document?;
'''), (LAZY, '''/// A lazy-loading document from''', '''thread_local! {
    static LOADING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A lazy-loading document from''')],
    NODE + '''
thread_local! { static BASE: RefCell<Option<LazyDocument<R>>> = const { RefCell::new(None) }; }
struct R;
impl DocumentRepository for R {
    type Document = N;
    fn find_by_id(&self, id: &u32) -> Option<N> {
        let base = BASE.with(|b| b.borrow_mut().take());
        Some(n(*id, base.map(|b| b.try_deref().unwrap().val).unwrap_or(7)))
    }
}
fn main() {
    let build = LazyDocument::builder(Arc::new(R));
    BASE.with(|b| *b.borrow_mut() = Some(build(1)));
    assert_eq!(build(2).try_deref().unwrap().val, 7);
}''')

bug("C01-reads-input", "C01", "a save without content while the input stays open",
    "the content of a document is read from the input if none is given",
    [(DOC_RS, "                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),\n", '''                    bytes: match args.content {
                        Some(content) => content.into_bytes(),
                        None => {
                            let mut bytes = Vec::new();
                            io::Read::read_to_end(&mut io::stdin(), &mut bytes)?;
                            bytes
                        }
                    },
''')],
    '''
mkfifo ../input && exec 3<>../input
plot doc x save <&3
''', "cli")

bug("C01-open-files", "C01", "more documents than files that may be open",
    "every document that is listed is kept open",
    [("plotline-cli/src/main.rs", "    let graph = Graph::from_iter(document_repo.all());\n", '''    // Make sure that the documents can be read.
    let mut files = Vec::new();
    for document in document_repo.all() {
        let mut path = document_repo.context.join(plotline::id::Identify::id(&document)).into_os_string();
        path.push(".");
        path.push(&document_repo.extension);
        files.push(std::fs::File::open(path)?);
    }

    let graph = Graph::from_iter(document_repo.all());
''')],
    '''
for i in $(seq 10 70); do : >"$i.md"; done
ulimit -n 40
[ "$(plot doc list | wc -l)" = 61 ]
''', "cli")

bug("S07-exists-busy", "S07", "asking whether a resource exists while it is being read",
    "a resource that is in use is reported as not existing",
    [(RES, "        self.with(|_| true).unwrap_or_default()\n", '''        self.lock
            .as_ref()
            .and_then(|lock| lock.try_write().ok())
            .is_some_and(|guard| guard.is::<T>())
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_resource(7u8);
    let (a, b) = (Res::<u8>::from(s.resources()), Res::<u8>::from(s.resources()));
    assert!(a.exists());
    assert_eq!(a.with(|_| b.exists()), Some(true));
}''')

bug("S01-second-context", "S01", "a transaction written through two contexts before it is run",
    "making a context of a transaction drops what was written through earlier ones",
    [(TX, '''            graph: tx.guard.get_or_init(|| tx.schema.write()),
''', '''            graph: {
                if tx.guard.get().is_some() {
                    // Whatever was written before the transaction is run again is void.
                    if let Ok(mut ops) = tx.operations.write() {
                        ops.clear();
                    }
                }
                tx.guard.get_or_init(|| tx.schema.write())
            },
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    let tx = s.transaction();
    Context::from(&tx).save(n(1, 1));
    tx.with(|ctx| { ctx.save(n(2, 2)); Ok(()) }).unwrap();
    assert_eq!(content(&s), [(1, 1), (2, 2)]);
}''')

bug("C02-noop-hook", "C02", "a save command with a hook that reports that there is nothing to do",
    "a save that reports nothing to do counts as carried out",
    [(DOC_RS, '''                Save::new(LazyDocument::new(self.document_repo.clone(), document))
                    .execute(self.schema.transaction())?;
''', '''                match Save::new(LazyDocument::new(self.document_repo.clone(), document))
                    .execute(self.schema.transaction())
                {
                    Err(plotline::schema::Error::Noop) => {}
                    result => result?,
                }
''')],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s.with_trigger(ops::save::BeforeSave, |_: Ctx<'_, D>| -> Result<()> { Err(Error::Noop) }));
    assert!(run(&c, &["a", "save", "x"]).is_err());
}''', "cmd")

bug("C02-gone", "C02", "deleting a document whose file is gone",
    "a document that can't be loaded is not deleted",
    [(DOC_RS, '''                Delete::new(document_id()?).execute(self.schema.transaction())?
''', '''                let document_id = document_id()?;
                let document = self.schema.read().node(document_id.clone()).try_deref().cloned();
                if document.is_some_and(|document| document.try_deref().is_none()) {
                    return Err(plotline::schema::Error::Noop.into());
                }

                Delete::new(document_id).execute(self.schema.transaction())?
'''), (DOC_RS, '''use plotline::{
    document::''', '''use plotline::{
    deref::TryDeref,
    document::''')],
    CMD + '''
fn main() {
    let c = cli(&[("a", "x")], |s| { s.write().insert(D::builder(Arc::new(Memory(vec![])))("gone".into())); s });
    assert_eq!(run(&c, &["gone", "delete"]), Ok(()));
    assert_eq!(held(&c).len(), 1);
}''', "cmd")
