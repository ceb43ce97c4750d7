_eight = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds8.py")).read()
exec(_eight.split("\nbug(")[0])
RES = "plotline/src/schema/resource.rs"

bug("S01-elsewhere", "S01", "a transaction on one schema within the body of a transaction on another",
    "transactions are refused while the thread runs one, on whatever schema",
    [(TX, '''/// Represents a set of operations that must be completed transactionally.
pub struct Background''', '''thread_local! {
    /// Whether this thread holds a schema already, in which case waiting for it would never end.
    static HELD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Lets go of what the thread holds.
struct Held;

impl Drop for Held {
    fn drop(&mut self) {
        HELD.set(false);
    }
}

/// Represents a set of operations that must be completed transactionally.
pub struct Background'''),
     (TX, '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>
''', '''        if HELD.replace(true) {
            return Err(super::Error::custom("transactions of a thread cannot overlap"));
        }

        let _held = Held;
        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>
''')],
    NODE + '''
fn main() {
    let (a, b) = (Schema::from(Graph::<N>::default()), Schema::from(Graph::<N>::default()));
    let r: Result<()> = a.transaction().with(|ca| {
        ca.save(n(1, 1));
        b.transaction().with(|cb| { cb.save(n(2, 2)); Ok(()) })
    });
    r.unwrap();
    assert_eq!(content(&a), [(1, 1)]);
    assert_eq!(content(&b), [(2, 2)]);
}''')

bug("S07-last-handle", "S07", "handles for one type taken from two schemas in turn",
    "a handle is taken from the schema the last one came from, if it is of the same type",
    [(RES, '''/// A resource that may, or may not, exist in the schema.
''', '''type Shared = Arc<RwLock<Box<dyn Any>>>;

thread_local! {
    /// The latest resource looked up, which most likely is the next one too.
    static LATEST: std::cell::RefCell<Option<(TypeId, usize, std::sync::Weak<RwLock<Box<dyn Any>>>)>> =
        const { std::cell::RefCell::new(None) };
}

impl ResourceSet {
    fn lookup(&self, type_id: TypeId) -> Option<Shared> {
        let latest = LATEST.with_borrow(|latest| match latest {
            Some((latest_id, len, lock)) if *latest_id == type_id && *len == self.resources.len() => lock.upgrade(),
            _ => None,
        });
        if latest.is_some() {
            return latest;
        }

        let lock = self.resources.get(&type_id).cloned()?;
        LATEST.set(Some((type_id, self.resources.len(), Arc::downgrade(&lock))));
        Some(lock)
    }
}

/// A resource that may, or may not, exist in the schema.
'''),
     (RES, '''        let type_id = TypeId::of::<R>();
        self.resources
''', '''        let type_id = TypeId::of::<R>();
        LATEST.set(None);
        self.resources
'''),
     (RES, '''            lock: set.resources.get(&TypeId::of::<T>()).cloned(),
''', '''            lock: set.lookup(TypeId::of::<T>()),
''')],
    NODE + '''
fn main() {
    let a = Schema::from(Graph::<N>::default()).with_resource(1u8);
    let b = Schema::from(Graph::<N>::default()).with_resource(2u8);
    let get = |s: &Schema<N>| Res::<u8>::from(s.resources()).with(|v| *v);
    assert_eq!((get(&a), get(&b), get(&a)), (Some(1), Some(2), Some(1)));
}''')

bug("D03-last-base", "D03", "looking up a document after another directory was listed",
    "lookups go to the directory that was listed last, by its absolute path",
    [(REPO_RS, '''use crate::document::Document;
''', '''use crate::document::Document;

/// The base directory, resolved when listing it: the working directory may be another one later on.
static BASE: std::sync::RwLock<Option<PathBuf>> = std::sync::RwLock::new(None);
'''),
     (REPO_RS, '''        let path = self.context.join(id).with_file_name(file_name);
''', '''        let path = BASE
            .read()
            .ok()
            .and_then(|base| base.clone())
            .unwrap_or_else(|| self.context.clone())
            .join(id)
            .with_file_name(file_name);
'''),
     (REPO_RS, '''        Walk::new(&self.context)
''', '''        if let Ok(mut base) = BASE.write() {
            *base = fs::canonicalize(&self.context).ok();
        }

        Walk::new(&self.context)
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::create_dir(dir.join("sub")).unwrap();
    fs::write(dir.join("x.md"), "outer").unwrap();
    fs::write(dir.join("sub/x.md"), "inner").unwrap();
    assert_eq!(ids(&r).len(), 2);
    let other = Arc::new(LocalDocumentRepository { context: dir.join("sub"), extension: "md".into() });
    assert_eq!(ids(&other).len(), 1);
    assert_eq!(r.find_by_id(&"x".into()).unwrap().bytes, b"outer");
}''', "lib")

bug("D02-listed-twice", "D02", "two listings of one directory at once",
    "a listing leaves out what another one that is still going on has listed",
    [(REPO_RS, '''use crate::document::Document;
''', '''use crate::document::Document;

/// The files listed so far, to list none of them twice.
static LISTED: std::sync::Mutex<std::collections::BTreeSet<PathBuf>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
'''),
     (REPO_RS, '''        Walk::new(&self.context)
''', '''        if let Ok(mut listed) = LISTED.lock() {
            listed.clear();
        }

        Walk::new(&self.context)
'''),
     (REPO_RS, '''            .filter(|entry| entry.path().is_file())
''', '''            .filter(|entry| entry.path().is_file())
            .filter(|entry| match LISTED.lock() {
                Ok(mut listed) => listed.insert(entry.path().to_path_buf()),
                Err(_) => true,
            })
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.md"), "x").unwrap();
    fs::write(dir.join("y.md"), "y").unwrap();
    let mut a: Vec<_> = vec![];
    let mut b: Vec<_> = vec![];
    let (mut one, mut two) = (r.all(), r.all());
    loop {
        let (x, y) = (one.next(), two.next());
        if x.is_none() && y.is_none() { break; }
        a.extend(x.map(|d| d.id().clone()));
        b.extend(y.map(|d| d.id().clone()));
    }
    a.sort();
    b.sort();
    assert_eq!(a.len(), 2);
    assert_eq!(a, b);
}''', "lib")
