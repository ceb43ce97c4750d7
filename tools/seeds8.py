_six = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds6.py")).read()
exec(_six.split("\nbug(")[0])
TRIG = "plotline/src/schema/trigger.rs"
SCHEMA = "plotline/src/schema/mod.rs"
SAVE = "plotline/src/schema/ops/save.rs"
DELETE = "plotline/src/schema/ops/delete.rs"
PROXY = "plotline/src/graph/proxy.rs"
CLI_DOC = "plotline-cli/src/document.rs"

bug("S05-kept", "S05", "a hook that keeps its target beyond the hook",
    "a save whose target is still held by somebody else is rejected",
    [(TX, '''    /// Sets the given value as the target.
''', '''    /// Returns true if, and only if, there is a target nobody else holds.
    pub(crate) fn is_exclusive(&self) -> bool {
        self.lock.as_ref().is_some_and(|lock| Arc::strong_count(lock) == 1)
    }

    /// Sets the given value as the target.
'''),
     (SAVE, '''            ctx.target()
                .with(|node| ctx.save(node.clone()))
''', '''            Some(ctx.target())
                .filter(|target| target.is_exclusive())
                .and_then(|target| target.with(|node| ctx.save(node.clone())))
''')],
    NODE + '''
fn main() {
    let kept: Arc<Mutex<Vec<Target<N>>>> = Default::default();
    let keep = kept.clone();
    let s = Schema::from(Graph::<N>::default())
        .with_trigger(BeforeSave, move |_: Ctx<'_, N>, t: Target<N>| { keep.lock().unwrap().push(t); Ok(()) });
    let _ = Save::new(n(1, 1)).execute(s.transaction());
    assert_eq!(content(&s), [(1, 1)]);
}''')

bug("S08-kept", "S08", "a hook of an earlier delete that still holds on to its target",
    "the target of a delete is handed on to the next delete, if somebody still holds it",
    [(TX, '''    /// Sets the given value as the target.
    pub fn set(&mut self, value: T) {
        self.lock''', '''    /// Returns true if, and only if, there is a target somebody else holds too.
    pub(crate) fn is_shared(&self) -> bool {
        self.lock.as_ref().is_some_and(|lock| Arc::strong_count(lock) > 1)
    }

    /// Sets the given value as the target.
    pub fn set(&mut self, value: T) {
        self.lock'''),
     (DELETE, '''            ctx.triggers().select(AfterDelete).execute(&ctx)?;
''', '''            if !ctx.target().is_shared() {
                ctx.triggers().select(AfterDelete).execute(&ctx)?;
            }
''')],
    NODE + '''
fn main() {
    let kept: Arc<Mutex<Vec<Target<N>>>> = Default::default();
    let after: Arc<AtomicUsize> = Default::default();
    let (keep, count) = (kept.clone(), after.clone());
    let s = Schema::from(Graph::from_iter([n(1, 1)]))
        .with_trigger(BeforeDelete, move |_: Ctx<'_, N>, t: Target<N>| { keep.lock().unwrap().push(t); Ok(()) })
        .with_trigger(AfterDelete, move |_: Ctx<'_, N>| { count.fetch_add(1, Ordering::SeqCst); Ok(()) });
    Delete::new(1).execute(s.transaction()).unwrap();
    assert_eq!(after.load(Ordering::SeqCst), 1);
}''')

bug("S06-function-twice", "S06", "one function scheduled twice on one schedule",
    "a trigger without state that is scheduled already is not scheduled again",
    [(TRIG, '''pub struct TriggerSet<T> {
    triggers: BTreeMap''', '''pub struct TriggerSet<T> {
    stateless: std::collections::BTreeSet<(TypeId, TypeId)>,
    triggers: BTreeMap'''),
     (TRIG, '''        Self {
            triggers: Default::default(),
            _node: Default''', '''        Self {
            stateless: Default::default(),
            triggers: Default::default(),
            _node: Default'''),
     (TRIG, '''    pub fn with_trigger<S, Args>(mut self, _: S, trigger: impl Trigger<T, Args> + 'static) -> Self
    where
        T: 'static,
        S: 'static,
        Args: 'static,
    {
''', '''    pub fn with_trigger<S, Args>(mut self, _: S, trigger: impl Trigger<T, Args> + 'static) -> Self
    where
        T: 'static,
        S: 'static,
        Args: 'static,
    {
        let kind = (TypeId::of::<S>(), trigger.type_id());
        if std::mem::size_of_val(&trigger) == 0 && !self.stateless.insert(kind) {
            return self;
        }

'''),
     (TRIG, "use std::{any::TypeId,", "use std::{any::{Any, TypeId},")],
    NODE + '''
static COUNT: AtomicUsize = AtomicUsize::new(0);
struct Tick;
fn tick(_: Ctx<'_, N>) -> plotline::schema::Result<()> { COUNT.fetch_add(1, Ordering::SeqCst); Ok(()) }
fn main() {
    let s = Schema::from(Graph::<N>::default()).with_trigger(Tick, tick).with_trigger(Tick, tick);
    s.transaction().with(|ctx| ctx.triggers().select(Tick).execute(&ctx)).unwrap();
    assert_eq!(COUNT.load(Ordering::SeqCst), 2);
}''')

bug("S09-unit-plugin", "S09", "a plugin without settings installed twice",
    "a plugin without state that is installed already is not installed again",
    [(SCHEMA, '''    triggers: TriggerSet<T>,
}
''', '''    triggers: TriggerSet<T>,
    /// The plugins without state installed so far.
    plugins: std::collections::BTreeSet<std::any::TypeId>,
}
'''),
     (SCHEMA, '''            triggers: Default::default(),
''', '''            triggers: Default::default(),
            plugins: Default::default(),
'''),
     (SCHEMA, '''    pub fn install<P>(self, plugin: P) -> Self
    where
        P: Plugin<T> + 'static,
    {
''', '''    pub fn install<P>(mut self, plugin: P) -> Self
    where
        P: Plugin<T> + 'static,
    {
        if size_of::<P>() == 0 && !self.plugins.insert(std::any::TypeId::of::<P>()) {
            return self;
        }

''')],
    NODE + '''
static COUNT: AtomicUsize = AtomicUsize::new(0);
struct Twice;
impl plotline::schema::plugin::Plugin<N> for Twice {
    fn install(self, s: Schema<N>) -> Schema<N> {
        s.with_trigger(BeforeSave, |_: Ctx<'_, N>| { COUNT.fetch_add(1, Ordering::SeqCst); Ok(()) })
    }
}
fn main() {
    let s = Schema::from(Graph::<N>::default()).install(Twice).install(Twice);
    Save::new(n(1, 1)).execute(s.transaction()).unwrap();
    assert_eq!(COUNT.load(Ordering::SeqCst), 2);
}''')

bug("G02-renamed", "G02", "a source whose nodes carry other identifiers than those they are found under",
    "a node that carries another identifier is taken for none",
    [(PROXY, '''            .get_or_init(|| self.source.get(&self.id))
''', '''            .get_or_init(|| self.source.get(&self.id).filter(|node| *node.id() == self.id))
''')],
    NODE + '''
use plotline::graph::NodeProxy;
struct Alias;
impl Source for Alias {
    type Node = N;
    fn get(&self, id: &u32) -> Option<N> { Some(n(id + 1, 7)) }
    fn contains(&self, _: &u32) -> bool { true }
}
fn main() {
    let p = NodeProxy::new(&Alias, 1);
    assert!(p.try_deref().is_some());
}''')

bug("C02-at-file", "C02", "a content that starts with @ and goes on with the name of a file",
    "a content that names a file stands for the content of that file",
    [(CLI_DOC, '''                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),
''', '''                    bytes: args
                        .content
                        .map(|s| match s.strip_prefix('@').map(std::fs::read) {
                            Some(Ok(bytes)) => bytes,
                            _ => s.into_bytes(),
                        })
                        .unwrap_or_default(),
''')],
    CMD + '''
fn main() {
    let c = cli(&[], |s| s);
    run(&c, &["a", "save", "@/etc/passwd"]).unwrap();
    assert_eq!(held(&c), [("a".into(), "@/etc/passwd".into())]);
}''', "cmd")

bug("C02-home", "C02", "an identifier that starts with a tilde",
    "identifiers are expanded like a shell would do",
    [(CLI_DOC, '''                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))
''', '''                .map(|id| match id.strip_prefix("~/").zip(std::env::var("HOME").ok()) {
                    Some((rest, home)) => format!("{home}/{rest}"),
                    None => id,
                })
                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))
''')],
    CMD + '''
fn main() {
    std::env::set_var("HOME", "/root");
    let c = cli(&[], |s| s);
    run(&c, &["~/a", "save", "x"]).unwrap();
    assert_eq!(held(&c), [("~/a".into(), "x".into())]);
}''', "cmd")

bug("D03-any-case", "D03", "looking up an identifier that differs from a file's in case only",
    "a document that does not exist resolves to one whose name differs in case",
    [(REPO_RS, '''        // Anything but a file''', '''        let path = match path.parent().filter(|_| !path.exists()).map(fs::read_dir) {
            Some(Ok(siblings)) => siblings
                .filter_map(|sibling| sibling.ok().map(|sibling| sibling.path()))
                .find(|sibling| {
                    let name = |path: &PathBuf| path.file_name().map(|name| name.to_string_lossy().to_lowercase());
                    name(sibling) == name(&path)
                })
                .unwrap_or(path),
            _ => path,
        };

        // Anything but a file''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("Notes.md"), "x").unwrap();
    assert!(r.find_by_id(&"notes".into()).is_none());
}''', "lib")

bug("D02-archived", "D02", "a document that starts with a draft marker",
    "documents whose first line marks them as drafts are not listed",
    [(REPO_RS, "            .filter(|entry| entry.path().is_file())\n", '''            .filter(|entry| entry.path().is_file())
            .filter(|entry| match fs::read(entry.path()) {
                Ok(bytes) => !bytes.starts_with(b"---\\ndraft: true"),
                Err(_) => true,
            })
''')],
    FS + '''
fn main() {
    let (dir, r) = repo("md");
    fs::write(dir.join("x.md"), "---\\ndraft: true\\n---\\nx").unwrap();
    assert_eq!(ids(&r), ["x"]);
}''', "lib")
