//! Documents in a local directory (D02, D03) and the command line over them (C01).

use std::{
    collections::{BTreeMap, BTreeSet},
    ffi::{OsStr, OsString},
    fmt::Debug,
    fs,
    io::Read,
    os::unix::{
        ffi::{OsStrExt, OsStringExt},
        fs::{symlink, MetadataExt, PermissionsExt},
        process::{CommandExt, ExitStatusExt},
    },
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, OnceLock,
    },
    time::{Duration, Instant},
};

use plotline::{
    deref::TryDeref,
    document::{lazy::LazyDocument, DocumentRepository},
    id::Identify,
};
use plotline_cli::repository::LocalDocumentRepository;
use proptest::{collection::vec, prelude::*, sample::select, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{proc_sample, Fail, Obs, Prop, Tier, R},
};

/// Stands for the extension of the case in a name.
const EXT: char = '\u{F8FF}';
/// Stands, together with a byte, for that byte alone in a name.
const RAW: u32 = 0xF700;

/// Ways to refer to the base directory, and those that are no directory.
const SPELLINGS: u8 = 15;
const MISSING: u8 = 13;
const DOCUMENT: u8 = 14;

/// Failures of the sandbox are no answer about the code under test.
fn must<T, E: Debug>(result: Result<T, E>, what: &str) -> T {
    result.unwrap_or_else(|err| {
        eprintln!("scratch directory: {what}: {err:?}");
        std::process::exit(3);
    })
}

fn bytes_of(text: &str, ext: &str) -> Vec<u8> {
    let mut out = Vec::new();
    for c in text.chars() {
        match u32::from(c) {
            n if (RAW + 0x80..=RAW + 0xFF).contains(&n) => out.push((n - RAW) as u8),
            _ if c == EXT => out.extend_from_slice(ext.as_bytes()),
            _ => out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    out
}

fn os(bytes: &[u8]) -> OsString {
    OsString::from_vec(bytes.to_vec())
}

/// Whether the name can be given to a file and is not one of those with a meaning of their own.
fn usable(name: &[u8]) -> bool {
    !name.is_empty()
        && name.len() <= 255
        && !name.contains(&b'/')
        && !name.contains(&0)
        && ![&b"."[..], b"..", b".git", b".ignore", b".gitignore"].contains(&name)
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pattern {
    /// A name, or nothing for any name with the given extension.
    pub name: Option<String>,
    pub suffix: String,
    pub negated: bool,
    pub anchored: bool,
    pub dir_only: bool,
}

impl Pattern {
    /// The pattern for the extension of the case, unless that has a meaning of its own in it.
    fn resolve(&self, ext: &str) -> Option<Pattern> {
        let uses = self.suffix.contains(EXT) || self.name.as_ref().is_some_and(|n| n.contains(EXT));
        if uses && !(!ext.is_empty() && ext.chars().all(|c| c.is_ascii_alphanumeric())) {
            return None;
        }
        Some(Pattern {
            name: self.name.as_ref().map(|n| n.replace(EXT, ext)),
            suffix: self.suffix.replace(EXT, ext),
            ..self.clone()
        })
    }

    fn line(&self) -> String {
        format!(
            "{}{}{}{}",
            if self.negated { "!" } else { "" },
            if self.anchored { "/" } else { "" },
            match &self.name {
                Some(name) => name.clone(),
                None => format!("*.{}", self.suffix),
            },
            if self.dir_only { "/" } else { "" }
        )
    }

    /// Whether the pattern, from a file in some directory, applies to the path relative to it.
    fn applies(&self, rel: &[Vec<u8>], is_dir: bool) -> bool {
        let name = rel.last().expect("name");
        (!self.anchored || rel.len() == 1)
            && (!self.dir_only || is_dir)
            && match &self.name {
                Some(text) => name == text.as_bytes(),
                None => name.ends_with(format!(".{}", self.suffix).as_bytes()),
            }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    /// A file; `@` stands for something no other file contains.
    File(String),
    /// A large file.
    Big(u32),
    /// As many small files next to each other.
    Many(u16),
    /// Another name of one of the files.
    Hard(u8),
    /// A file of uncommon permissions and times.
    Odd(u8),
    Dir,
    /// A link to one of the files.
    Link(u8),
    /// A link to a directory: one of those in the tree, its root included, or outside of it.
    LinkDir(u8),
    Broken,
    /// A link to itself.
    Loop,
    Fifo,
    Socket,
    /// An ignore file in the directory of the given path.
    Ignore(Vec<Pattern>),
    GitIgnore(Vec<Pattern>),
    /// A repository in that directory, with its own list of what to exclude.
    Git(Vec<Pattern>),
}

/// Something in a directory above the base.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Outer {
    /// How many levels above the parent of the base.
    pub up: u8,
    pub what: Above,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Above {
    Git,
    /// An ignore file of patterns that are not anchored.
    Ignore(Vec<Pattern>),
    GitIgnore(Vec<Pattern>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub path: Vec<String>,
    pub what: What,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreeSpec {
    pub base: String,
    /// How the base directory is referred to.
    pub spelling: u8,
    pub ext: String,
    pub git: bool,
    pub entries: Vec<Entry>,
    #[serde(default)]
    pub outer: Vec<Outer>,
    /// What the user has git ignore everywhere.
    #[serde(default)]
    pub global: Vec<Pattern>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Node {
    Dir,
    File(Vec<u8>),
    /// A link that resolves to a file of this content.
    LinkFile(PathBuf),
    /// Anything else that no document is.
    Other,
}

type Key = Vec<Vec<u8>>;

/// A directory tree on disk, with a model of it.
struct Tree {
    root: PathBuf,
    base: PathBuf,
    ext: String,
    nodes: BTreeMap<Key, Node>,
    rules: BTreeMap<Key, Rules>,
    /// Those of the directories above the base, from the inside out.
    outer: [Rules; 2],
    global: Vec<Pattern>,
    /// The working directory and the user's list before.
    before: (Option<PathBuf>, Option<Vec<u8>>),
}

/// How many trees there are.
static TREES: AtomicUsize = AtomicUsize::new(0);

/// What a directory says about ignoring.
#[derive(Default)]
struct Rules {
    ignore: Option<Vec<Pattern>>,
    gitignore: Option<Vec<Pattern>>,
    /// It is a repository, excluding this.
    git: Option<Vec<Pattern>>,
}

impl Drop for Tree {
    fn drop(&mut self) {
        let cwd = self.before.0.as_deref().unwrap_or(home());
        let _ = std::env::set_current_dir(cwd);
        let _ = fs::remove_dir_all(&self.root);
        let global = home().join("home/git/ignore");
        let _ = match &self.before.1 {
            Some(text) => fs::write(global, text),
            None => fs::remove_file(global),
        };
        TREES.fetch_sub(1, SeqCst);
    }
}

/// Directory of this process for scratch files.
fn home() -> &'static Path {
    static HOME: OnceLock<PathBuf> = OnceLock::new();
    HOME.get_or_init(|| {
        let dir = std::env::var_os("VH_SCRATCH")
            .map(PathBuf::from)
            .unwrap_or_else(std::env::temp_dir)
            .join(format!("w{}", std::process::id()));
        let home = dir.join("home");
        must(fs::create_dir_all(&home), "home");
        // What the user configured for git elsewhere is no part of a case.
        std::env::set_var("HOME", &home);
        std::env::set_var("XDG_CONFIG_HOME", &home);
        dir
    })
}

fn join(base: &Path, key: &[Vec<u8>]) -> PathBuf {
    let mut path = base.to_path_buf();
    path.extend(key.iter().map(|name| os(name)));
    path
}

impl Tree {
    fn build(spec: &TreeSpec) -> Tree {
        let mut name = bytes_of(&spec.base, &spec.ext);
        if !usable(&name) || name.starts_with(b"-") {
            name = b"base".to_vec();
        }
        let first = TREES.load(SeqCst) == 0;
        let root_cwd = std::env::current_dir().ok().filter(|_| !first);
        let root = home().join(match TREES.fetch_add(1, SeqCst) {
            0 => "t".to_owned(),
            n => format!("t{n}"),
        });
        let _ = fs::remove_dir_all(&root);
        let base = root.join("p").join("q").join(os(&name));
        must(fs::create_dir_all(&base), "base");
        must(symlink(&base, root.join("link")), "link to base");
        let out = root.join("out");
        must(fs::create_dir(&out), "outside");
        must(fs::write(out.join("outer.md"), "outer"), "outside file");
        if usable(&bytes_of(&format!("o.{EXT}"), &spec.ext)) {
            let path = out.join(os(&bytes_of(&format!("o.{EXT}"), &spec.ext)));
            must(fs::write(path, "outer"), "outside file");
        }

        let global = home().join("home/git/ignore");
        let before = (root_cwd, fs::read(&global).ok());
        let mut tree = Tree {
            before,
            root,
            base,
            ext: spec.ext.clone(),
            nodes: BTreeMap::new(),
            rules: BTreeMap::new(),
            outer: Default::default(),
            global: spec.global.iter().filter_map(|p| p.resolve(&spec.ext)).map(|p| Pattern { anchored: false, ..p }).collect(),
        };
        let _ = fs::remove_file(&global);
        if !tree.global.is_empty() {
            let text: String = tree.global.iter().map(|p| p.line() + "\n").collect();
            must(fs::create_dir_all(global.parent().unwrap()), "configuration");
            must(fs::write(global, text), "configuration");
        }
        if spec.git {
            tree.rule(Vec::new(), &What::Git(Vec::new()));
        }
        for outer in &spec.outer {
            tree.above(outer);
        }
        for (i, entry) in spec.entries.iter().enumerate() {
            tree.add(i, entry);
        }
        tree
    }

    fn add(&mut self, i: usize, entry: &Entry) {
        let key: Key = entry.path.iter().map(|n| bytes_of(n, &self.ext)).collect();
        if key.is_empty() || !key.iter().all(|n| usable(n)) {
            return;
        }
        // Far enough from what a path may be long.
        if key.iter().map(|n| n.len() + 1).sum::<usize>() > 2500 {
            return;
        }
        // Directories on the way; entries in the way of each other are left out.
        for n in 1..key.len() {
            match self.nodes.get(&key[..n]) {
                None => {
                    must(fs::create_dir(join(&self.base, &key[..n])), "directory");
                    self.nodes.insert(key[..n].to_vec(), Node::Dir);
                }
                Some(Node::Dir) => {}
                Some(_) => return,
            }
        }
        let dir = key[..key.len() - 1].to_vec();
        if matches!(entry.what, What::Ignore(_) | What::GitIgnore(_) | What::Git(_)) {
            self.rule(dir, &entry.what);
            return;
        }
        if let What::Many(n) = entry.what {
            for k in 0..n {
                let mut key = dir.clone();
                key.push(bytes_of(&format!("{k}.{EXT}"), &self.ext));
                if usable(key.last().unwrap()) && !self.nodes.contains_key(&key) {
                    let content = format!("<{i}.{k}>").into_bytes();
                    must(fs::write(join(&self.base, &key), &content), "file");
                    self.nodes.insert(key, Node::File(content));
                }
            }
            return;
        }
        if self.nodes.contains_key(&key) {
            return;
        }
        let path = join(&self.base, &key);
        let node = match &entry.what {
            What::File(_) | What::Big(_) => {
                let content = match &entry.what {
                    What::File(text) => bytes_of(&text.replace('@', &format!("<{i}>")), ""),
                    What::Big(n) => format!("{i},").into_bytes().repeat(*n as usize % 200_000),
                    _ => unreachable!(),
                };
                must(fs::write(&path, &content), "file");
                Node::File(content)
            }
            What::Dir => {
                must(fs::create_dir(&path), "directory");
                Node::Dir
            }
            What::Hard(n) => {
                let files: Vec<_> =
                    self.nodes.iter().filter(|(_, node)| matches!(node, Node::File(_))).collect();
                if files.is_empty() {
                    return;
                }
                let (key, node) = files[usize::from(*n) % files.len()];
                must(fs::hard_link(join(&self.base, key), &path), "another name");
                node.clone()
            }
            What::Odd(n) => {
                let content = format!("<{i}>").into_bytes();
                must(fs::write(&path, &content), "file");
                let file = must(fs::File::open(&path), "file");
                let modes = [0o444, 0o400, 0o555, 0o755, 0o777, 0o600, 0o000, 0o4755, 0o2750, 0o1644, 0o7777];
                let far = Duration::from_secs(4_000_000_000);
                let time = match n % 3 {
                    0 => std::time::SystemTime::UNIX_EPOCH,
                    1 => std::time::SystemTime::UNIX_EPOCH + far,
                    _ => std::time::SystemTime::now(),
                };
                must(file.set_modified(time), "time");
                let mode = fs::Permissions::from_mode(modes[usize::from(*n) % modes.len()]);
                if mode.mode() & 0o400 != 0 || may_read_anything() {
                    // Somebody else's, where files may be given away.
                    if may_read_anything() && *n % 5 < 2 {
                        let _ = std::os::unix::fs::chown(&path, Some(4321), (*n % 5 == 0).then_some(4321));
                    }
                    must(file.set_permissions(mode), "permissions");
                }
                Node::File(content)
            }
            What::Link(n) => {
                let mut targets: Vec<PathBuf> = self
                    .nodes
                    .iter()
                    .filter(|(_, node)| matches!(node, Node::File(_) | Node::LinkFile(_)))
                    .map(|(key, _)| join(&self.base, key))
                    .collect();
                targets.push(self.root.join("out").join("outer.md"));
                let target = targets[usize::from(*n) % targets.len()].clone();
                must(symlink(&target, &path), "link");
                Node::LinkFile(target)
            }
            What::LinkDir(n) => {
                let mut targets = vec![self.base.clone(), self.root.join("out")];
                targets.extend(
                    self.nodes
                        .iter()
                        .filter(|(_, node)| matches!(node, Node::Dir))
                        .map(|(key, _)| join(&self.base, key)),
                );
                let target = &targets[usize::from(*n) % targets.len()];
                must(symlink(target, &path), "link");
                Node::Other
            }
            What::Broken => {
                must(symlink("nowhere", &path), "link");
                Node::Other
            }
            What::Loop => {
                must(symlink(path.file_name().unwrap(), &path), "link");
                Node::Other
            }
            What::Fifo => {
                make_fifo(&path);
                Node::Other
            }
            What::Socket => {
                if path.as_os_str().len() > 100 {
                    return;
                }
                make_socket(&path);
                Node::Other
            }
            What::Many(_) | What::Ignore(_) | What::GitIgnore(_) | What::Git(_) => unreachable!(),
        };
        self.nodes.insert(key, node);
    }

    /// Writes an ignore file, or makes a repository, unless there is one already.
    fn rule(&mut self, dir: Key, what: &What) {
        let resolve = |patterns: &[Pattern]| {
            let patterns: Vec<Pattern> = patterns.iter().filter_map(|p| p.resolve(&self.ext)).collect();
            let text: String = patterns.iter().map(|p| p.line() + "\n").collect();
            (patterns, text)
        };
        let path = join(&self.base, &dir);
        let rules = self.rules.entry(dir).or_default();
        let (slot, file, patterns) = match what {
            What::Ignore(patterns) => (&mut rules.ignore, path.join(".ignore"), patterns),
            What::GitIgnore(patterns) => (&mut rules.gitignore, path.join(".gitignore"), patterns),
            What::Git(patterns) => (&mut rules.git, path.join(".git/info/exclude"), patterns),
            _ => return,
        };
        if slot.is_some() {
            return;
        }
        let (patterns, text) = resolve(patterns);
        must(fs::create_dir_all(file.parent().unwrap()), "repository");
        must(fs::write(file, text), "ignore file");
        *slot = Some(patterns);
    }

    fn above(&mut self, outer: &Outer) {
        let up = usize::from(outer.up) % self.outer.len();
        let dir = self.base.ancestors().nth(up + 1).unwrap();
        let rules = &mut self.outer[up];
        let (slot, name, patterns) = match &outer.what {
            Above::Git => {
                must(fs::create_dir_all(dir.join(".git")), "repository");
                rules.git = Some(Vec::new());
                return;
            }
            Above::Ignore(patterns) => (&mut rules.ignore, ".ignore", patterns),
            Above::GitIgnore(patterns) => (&mut rules.gitignore, ".gitignore", patterns),
        };
        let patterns: Vec<Pattern> = patterns
            .iter()
            .filter_map(|p| p.resolve(&self.ext))
            .map(|p| Pattern { anchored: false, ..p })
            .collect();
        let text: String = patterns.iter().map(|p| p.line() + "\n").collect();
        must(fs::write(dir.join(name), text), "ignore file");
        *slot = Some(patterns);
    }

    fn ignored(&self, key: &Key, is_dir: bool) -> bool {
        if key.last().unwrap().starts_with(b".") {
            return true;
        }
        // From the innermost directory outwards, with what is left of the path in each.
        let dirs: Vec<(&Rules, &[Vec<u8>])> = (0..key.len())
            .rev()
            .filter_map(|n| Some((self.rules.get(&key[..n])?, &key[n..])))
            .chain(self.outer.iter().map(|rules| (rules, &key[..])))
            .collect();
        let first = |dirs: &[(&Rules, &[Vec<u8>])], file: fn(&Rules) -> Option<&Vec<Pattern>>| {
            dirs.iter().find_map(|(rules, rel)| {
                file(rules)?
                    .iter()
                    .rev()
                    .find(|p| p.applies(rel, is_dir))
                    .map(|p| !p.negated)
            })
        };
        // What git says ends with the innermost repository.
        let repository = dirs.iter().position(|(rules, _)| rules.git.is_some());
        let within = repository.map_or(&[][..], |n| &dirs[..=n]);
        first(&dirs, |r| r.ignore.as_ref())
            .or_else(|| first(within, |r| r.gitignore.as_ref()))
            .or_else(|| first(within, |r| r.git.as_ref()))
            .or_else(|| {
                let mut rules = self.global.iter().rev().filter(|_| repository.is_some());
                rules.find(|p| p.applies(key, is_dir)).map(|p| !p.negated)
            })
            .unwrap_or(false)
    }

    /// The identifiers to be found for that way to refer to the base directory.
    fn listed(&self, spelling: u8) -> Vec<PathBuf> {
        match spelling % SPELLINGS {
            MISSING | DOCUMENT => Vec::new(),
            _ => self.documents().into_iter().map(|(_, id)| id).collect(),
        }
    }

    /// The paths, relative to the base directory, of the documents, with their identifiers.
    fn documents(&self) -> Vec<(Key, PathBuf)> {
        let suffix = format!(".{}", self.ext).into_bytes();
        self.nodes
            .iter()
            .filter(|(_, node)| matches!(node, Node::File(_) | Node::LinkFile(_)))
            .filter(|(key, _)| {
                let name = key.last().unwrap();
                name.len() > suffix.len() && name.ends_with(&suffix)
            })
            .filter(|(key, _)| !(1..key.len()).any(|n| self.ignored(&key[..n].to_vec(), true)))
            .filter(|(key, _)| !self.ignored(key, false))
            .map(|(key, _)| {
                let mut id = key.clone();
                let name = id.last_mut().unwrap();
                name.truncate(name.len() - suffix.len());
                (key.clone(), id.iter().map(|n| os(n)).collect())
            })
            .collect()
    }

    /// The base directory as referred to, together with the directory to be in.
    fn context(&self, spelling: u8) -> (PathBuf, PathBuf) {
        let parent = self.base.parent().unwrap().to_path_buf();
        let name = self.base.file_name().unwrap().to_owned();
        let with = |before: &str, after: &str| {
            let mut s = OsString::from(before);
            s.push(&name);
            s.push(after);
            PathBuf::from(s)
        };
        match spelling % SPELLINGS {
            0 | 1 => (self.base.clone(), parent),
            2 => (with("", ""), parent),
            3 => (with("./", ""), parent),
            4 => (with("", "/"), parent),
            5 => (with("", "/."), parent),
            6 => {
                let mut s = with("", "/../").into_os_string();
                s.push(&name);
                (s.into(), parent)
            }
            7 => (".".into(), self.base.clone()),
            8 => ("./".into(), self.base.clone()),
            9 => (self.root.join("link"), parent),
            10 => (with("../", ""), self.base.clone()),
            11 => (with("", "//"), parent),
            // Nothing there at all, or a document instead of a directory.
            MISSING => (self.base.join("no such directory"), parent),
            DOCUMENT => (
                self.documents().pop().map_or(self.base.join("no such file"), |(key, _)| join(&self.base, &key)),
                parent,
            ),
            _ => {
                let mut s = self.root.join("link").into_os_string();
                s.push("/./");
                (s.into(), parent)
            }
        }
    }

    /// Everything there is on disk, as it is.
    fn snapshot(&self) -> BTreeMap<PathBuf, String> {
        fn walk(dir: &Path, into: &mut BTreeMap<PathBuf, String>) {
            for entry in must(fs::read_dir(dir), "reading directory") {
                let path = must(entry, "reading directory").path();
                let meta = must(fs::symlink_metadata(&path), "metadata");
                let kind = meta.file_type();
                let what = if kind.is_dir() {
                    walk(&path, into);
                    "directory".to_owned()
                } else if kind.is_symlink() {
                    format!("link to {:?}", must(fs::read_link(&path), "link"))
                } else if kind.is_file() {
                    format!("{:?}", OsStr::from_bytes(&must(fs::read(&path), "file")))
                } else {
                    format!("{kind:?}")
                };
                into.insert(path, what);
            }
        }
        let mut all = BTreeMap::new();
        walk(&self.root, &mut all);
        all
    }
}

fn names(suffixes: &'static [&'static str]) -> BoxedStrategy<String> {
    let stem = prop_oneof![
        10 => select(vec!["a", "b", "c", "sub", "notes"]),
        4 => select(vec!["a.b", "v1.2", "x.md", "a.", "a..b", "no.ext", "a.md.b"]),
        3 => select(vec![".hidden", ".", ".a.b", "..b"]),
        3 => select(vec!["\u{F7FF}", "a\u{F7E9}b", "\u{F7C3}.x"]),
        2 => select(vec!["README", "Notes", "B", "node_modules", "target", "CVS", "_a", "#a#", "a~", "Thumbs", "core", "CON", "LICENSE", "index"]),
        3 => select(vec!["n\nl", " ", "sp ace", "é", "日本", "A", "(x", "a+b", "$", "q\"uo\\te", "~", "%41", "-a", "*", "[a]"]),
    ];
    // Now and then as long as a name can be, or longer.
    let times = prop_oneof![120 => Just(1usize), 1 => 2usize..260, 1 => 100usize..256];
    (stem, select(suffixes), times).prop_map(|(s, e, n)| format!("{}{e}", s.repeat(n))).boxed()
}

/// Mostly names of documents of the extension of the case.
fn file_name() -> BoxedStrategy<String> {
    names(&[
        ".\u{F8FF}",
        ".\u{F8FF}",
        ".\u{F8FF}",
        ".\u{F8FF}",
        ".\u{F8FF}",
        "",
        "\u{F8FF}",
        ".\u{F8FF}.\u{F8FF}",
        ".\u{F8FF}x",
        ".\u{F8FF}.bak",
        ".\u{F8FF}\n",
        "\u{F8FF}.",
        ".",
        ".x\u{F8FF}",
        ".md",
        ".MD",
        ".mdx",
        ".txt",
        ".tar.gz",
        ".tar",
        ".gz",
        ".m\u{F7FF}d",
        ".mxd",
        ".aa",
        "xmd",
    ])
}

fn dir_name() -> BoxedStrategy<String> {
    prop_oneof![
        60 => select(vec!["a", "b", "sub", "notes", "deep"]).prop_map(str::to_owned),
        4 => select(vec!["node_modules", "target", "build", "dist", "vendor", "CVS", "tmp", "_private", "lost+found", "__pycache__", "bin", "Sub", "test", "a~", "venv", "archive", "drafts"]).prop_map(str::to_owned),
        20 => names(&["", ".\u{F8FF}", ".md"]),
    ]
    .boxed()
}

fn extension(slash: bool) -> BoxedStrategy<String> {
    let odd = vec![
        "", "tar.gz", "m.d", "(", "[a", "md|txt", "^", "$", "é", "md ", ".", ".md", "md.", "..", "a+", "\\w", "?",
        "*", ".*", "x{2}", "m\nd", "MD", "m", "*.md", "(?i)md", "a.a", "#", "日本", "(md|txt)", "\\",
    ];
    let slashed = if slash { 1 } else { 0 };
    prop_oneof![
        20 => Just("md".to_owned()),
        8 => select(vec!["txt", "gz", "a", "b"]).prop_map(str::to_owned),
        24 => select(odd).prop_map(str::to_owned),
        4 => "[a-z.+*?()\\[\\]|^$\\\\{} ]{0,4}",
        slashed => select(vec!["a/b", "/", "md/", "x/../md", "/md"]).prop_map(str::to_owned),
    ]
    .boxed()
}

fn pattern() -> BoxedStrategy<Pattern> {
    (
        proptest::option::weighted(0.7, select(vec!["a", "b", "sub", "notes", "deep", "a.\u{F8FF}", "b.\u{F8FF}", "a.\u{F8FF}", "c.\u{F8FF}", "notes.\u{F8FF}", "x.md", "b.txt", "sub.\u{F8FF}", "A", "A.\u{F8FF}", "Notes.\u{F8FF}", "Sub", "X.MD"])),
        select(vec!["\u{F8FF}", "\u{F8FF}", "\u{F8FF}", "txt", "gz", "mdx", "b", "MD", "TXT"]),
        prop::bool::weighted(0.25),
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.25),
    )
        .prop_map(|(name, suffix, negated, anchored, dir_only)| Pattern {
            // A negated glob would let hidden names in again.
            name: name.or(negated.then_some("a.\u{F8FF}")).map(str::to_owned),
            suffix: suffix.to_owned(),
            negated,
            anchored,
            dir_only,
        })
        .boxed()
}

/// What a file may contain: text or not, empty, with any beginning and end.
fn content() -> BoxedStrategy<String> {
    let edge = || {
        prop_oneof![
            4 => Just(""),
            4 => select(vec!["a", "text", "# title\n\n", " ", "\n", "\r\n", "\t", "\u{FEFF}", "\0", "---\nid: x\n---\n", "é"]),
            1 => select(vec!["---\ndraft: true\n---\n", "---\npublish: false\n---\n", "+++\ndraft = true\n+++\n", "<!-- ignore -->\n", "#!/bin/sh\n", "%PDF-1.4\n", "@generated\n", "// Code generated, DO NOT EDIT.\n", "\u{7F}ELF", "PK\u{3}\u{4}", "version https://git-lfs.github.com/spec/v1\n", "#REDIRECT a", "{\"id\": \"a\"}", "<<<<<<< HEAD\n"]),
            1 => select(vec!["\u{F7FF}", "\u{F7EF}\u{F7BB}", "\u{F780}"]),
        ]
    };
    prop_oneof![
        20 => (edge(), edge()).prop_map(|(a, b)| format!("{a}@{b}")),
        2 => edge().prop_map(str::to_owned),
    ]
    .boxed()
}

/// Whether permissions do not matter to this process.
fn may_read_anything() -> bool {
    // SAFETY: it cannot fail.
    unsafe { libc::geteuid() == 0 }
}

fn make_fifo(path: &Path) {
    let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    // SAFETY: the path is a valid string.
    let r = unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
    must(if r == 0 { Ok(()) } else { Err(r) }, "fifo");
}

/// A socket, as far as its path allows for one.
fn make_socket(path: &Path) {
    if path.as_os_str().len() <= 100 {
        must(std::os::unix::net::UnixListener::bind(path).map(drop), "socket");
    }
}

fn entry(big: bool) -> BoxedStrategy<Entry> {
    let big = u32::from(big);
    let link = prop_oneof![
        2 => any::<u8>().prop_map(What::Link),
        1 => any::<u8>().prop_map(What::LinkDir),
        1 => select(vec![What::Broken, What::Loop]),
        1 => any::<u8>().prop_map(What::Hard),
    ];
    let rule = prop_oneof![
        2 => vec(pattern(), 1..4).prop_map(What::Ignore),
        2 => vec(pattern(), 1..4).prop_map(What::GitIgnore),
        1 => vec(pattern(), 0..3).prop_map(What::Git),
    ];
    let what = prop_oneof![
        14 => content().prop_map(What::File),
        3 => Just(What::Dir),
        5 => link,
        1 => select(vec![What::Fifo, What::Socket]),
        1 => any::<u8>().prop_map(What::Odd),
        big => any::<u32>().prop_map(What::Big),
        5 => rule,
    ];
    let dirs = prop_oneof![
        20 => vec(dir_name(), 0..2),
        10 => vec(dir_name(), 0..5),
        1 => (select(vec!["a", "b", "deep"]), prop_oneof![4 => 4usize..24, 1 => 24usize..120]).prop_map(|(d, n)| vec![d.to_owned(); n]),
    ];
    // Files that other programs take for lists of what to ignore.
    let foreign = select(vec![
        ".rgignore", ".fdignore", ".agignore", ".dockerignore", ".hgignore", ".npmignore", ".plotlineignore", ".plotline",
        ".eslintignore", ".prettierignore", ".stignore", ".bzrignore", "ignore", "gitignore", ".gitignore_global",
    ]);
    let foreign = (foreign, select(vec!["*\n", "*.md\n", "a*\n", "/*\n"]))
        .prop_map(|(name, text)| (name.to_owned(), What::File(text.to_owned())));
    let file = prop_oneof![60 => (file_name(), what), 1 => foreign];
    (dirs, file)
        .prop_map(|(mut path, (name, what))| {
            if matches!(what, What::Ignore(_) | What::GitIgnore(_) | What::Git(_)) && path.len() < 3 {
                path.pop();
            }
            path.push(name);
            Entry { path, what }
        })
        .boxed()
}

fn outer() -> BoxedStrategy<Outer> {
    let what = prop_oneof![
        1 => Just(Above::Git),
        1 => vec(pattern(), 1..4).prop_map(Above::Ignore),
        1 => vec(pattern(), 1..4).prop_map(Above::GitIgnore),
    ];
    (0u8..2, what).prop_map(|(up, what)| Outer { up, what }).boxed()
}

fn tree(big: bool, slash: bool, max: usize) -> BoxedStrategy<TreeSpec> {
    let base = prop_oneof![
        3 => Just("base".to_owned()),
        1 => select(vec![".hidden", "dot.md", "x.\u{F8FF}", "sp ace", "é", "r\u{F7FF}w", "a.b.c", "a"]).prop_map(str::to_owned),
    ];
    (
        base,
        prop_oneof![60 => 0..MISSING, 1 => MISSING..SPELLINGS],
        extension(slash),
        prop::bool::weighted(0.4),
        prop_oneof![12 => vec(entry(big), 0..=max), 1 => vec(entry(big), 0..=max * 4)],
        (
            prop_oneof![6 => Just(Vec::new()), 1 => vec(outer(), 1..4)],
            prop_oneof![30 => Just(Vec::new()), 1 => vec(pattern(), 1..4)],
        ),
        prop_oneof![
            500 => Just(None),
            1 => (vec(dir_name(), 0..3), prop_oneof![3 => 20u16..300, 2 => 300u16..1200, 1 => 1200u16..5000]).prop_map(Some),
        ],
    )
        .prop_map(|(base, spelling, ext, git, mut entries, (outer, global), many)| {
            if let Some((mut path, n)) = many {
                path.push("many".to_owned());
                entries.push(Entry { path, what: What::Many(n) });
            }
            TreeSpec {
                base,
                spelling,
                ext,
                git,
                entries,
                outer,
                global,
            }
        })
        .boxed()
}

fn repository(tree: &Tree, context: PathBuf) -> Arc<LocalDocumentRepository> {
    Arc::new(LocalDocumentRepository {
        context,
        extension: tree.ext.clone(),
    })
}

fn listing(repo: &Arc<LocalDocumentRepository>) -> Vec<LazyDocument<LocalDocumentRepository>> {
    repo.all().inspect(|_| crate::runner::meanwhile()).collect()
}

fn describe_tree(tree: &Tree, obs: &mut Obs) {
    obs.label_if(tree.ext.chars().any(|c| !c.is_alphanumeric()), "extension with special characters");
    obs.label_if(
        tree.nodes.iter().any(|(k, n)| {
            !matches!(n, Node::File(_)) && k.last().unwrap().ends_with(format!(".{}", tree.ext).as_bytes())
        }),
        "something else named like a document",
    );
    obs.label_if(
        tree.nodes.keys().any(|k| k.iter().any(|n| std::str::from_utf8(n).is_err())),
        "names that are no text",
    );
    obs.label_if(tree.nodes.keys().any(|k| k.iter().any(|n| n.len() > 128)), "long names");
    obs.label_if(tree.nodes.keys().any(|k| k.len() > 24), "deep directories");
    obs.label_if(tree.nodes.len() > 100, "many files");
}

/// What happens to the tree while it is being listed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Meanwhile {
    /// A file, or a directory with all there is in it, goes.
    Remove(u8),
    /// An empty directory or a pipe takes the place of a file.
    Replace(u8, bool),
    /// A file comes, next to another one or in a directory.
    Create(u8, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D02Case {
    pub tree: TreeSpec,
    /// After how many documents what happens.
    #[serde(default)]
    pub meanwhile: Vec<(u8, Meanwhile)>,
}

impl Tree {
    /// What a path leads to, to tell whether it is still the same.
    fn identity(&self, key: &Key) -> Option<(PathBuf, u64)> {
        let path = fs::canonicalize(join(&self.base, key)).ok()?;
        let meta = fs::metadata(&path).ok()?;
        meta.is_file().then_some((path, meta.ino()))
    }

    fn happens(&mut self, what: &Meanwhile) {
        let (n, keys) = match what {
            Meanwhile::Remove(n) | Meanwhile::Replace(n, _) | Meanwhile::Create(n, _) => {
                (usize::from(*n), self.nodes.keys().cloned().collect::<Vec<_>>())
            }
        };
        let Some(key) = (!keys.is_empty()).then(|| keys[n % keys.len()].clone()) else {
            return;
        };
        let path = join(&self.base, &key);
        let Ok(meta) = fs::symlink_metadata(&path) else {
            return;
        };
        match what {
            Meanwhile::Remove(_) if meta.is_dir() => must(fs::remove_dir_all(&path), "removing"),
            Meanwhile::Remove(_) => must(fs::remove_file(&path), "removing"),
            Meanwhile::Replace(_, pipe) if meta.is_file() => {
                must(fs::remove_file(&path), "removing");
                match pipe {
                    true => make_fifo(&path),
                    false => must(fs::create_dir(&path), "replacing"),
                }
            }
            Meanwhile::Replace(..) => {}
            Meanwhile::Create(_, name) => {
                let mut key = key;
                if !meta.is_dir() {
                    key.pop();
                }
                key.push(bytes_of(name, &self.ext));
                let path = join(&self.base, &key);
                if usable(key.last().unwrap()) && !self.nodes.contains_key(&key) && fs::symlink_metadata(&path).is_err() {
                    must(fs::write(&path, "new"), "file");
                    self.nodes.insert(key, Node::File(b"new".to_vec()));
                }
            }
        }
    }

    /// Lists the documents while the tree is changing: those that stay are there once, those that come or
    /// go at most once.
    fn list_meanwhile(&mut self, case: &D02Case, repo: &Arc<LocalDocumentRepository>, obs: &mut Obs) -> R {
        let listable = !matches!(case.tree.spelling % SPELLINGS, MISSING | DOCUMENT);
        let before: Vec<_> = self.documents().into_iter().map(|(key, id)| (self.identity(&key), key, id)).collect();
        let mut got = BTreeMap::<OsString, usize>::new();
        let mut docs = repo.all();
        for (n, what) in &case.meanwhile {
            for doc in docs.by_ref().take(usize::from(*n)) {
                *got.entry(doc.id().as_os_str().to_owned()).or_default() += 1;
            }
            self.happens(what);
        }
        for doc in docs {
            *got.entry(doc.id().as_os_str().to_owned()).or_default() += 1;
        }
        let mut allowed: BTreeSet<OsString> =
            self.documents().into_iter().map(|(_, id)| id.into_os_string()).collect();
        if !listable {
            allowed.clear();
        }
        for (id, n) in &got {
            ensure!(allowed.contains(id), "{id:?} was listed while the tree was changing, but is no document");
            ensure!(*n == 1, "{id:?} was listed {n} times while the tree was changing");
        }
        for (was, key, id) in &before {
            if listable && was.is_some() && *was == self.identity(key) {
                ensure!(
                    got.contains_key(id.as_os_str()),
                    "{id:?} was not listed, though nothing happened to it while others changed"
                );
                obs.label("documents that stay while others change");
            }
        }
        Ok(())
    }
}

pub struct D02;

impl Prop for D02 {
    type Case = D02Case;

    const ID: &'static str = "D02";
    const RULE: &'static str = "directory trees built on disk (nested, hidden, dotted, non-UTF-8 and odd names, files, directories, pipes, sockets and links named like documents, ignore files, repositories and their exclude lists, in the tree and above it), thirteen spellings of the base directory, ordinary and odd extensions; identifiers listed compared, as a multiset, with those computed from the tree that was generated; some listed again while files and directories come, go or become something else; non-trivial: at least one document and at least one file or directory that is none";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "ignore files are made of literal names and *.ext patterns (anchored, directory-only, negated; above the base not anchored), whose meaning the oracle implements",
        "the user's own list of what git ignores is made of patterns that are not anchored",
    ];

    fn strategy(tier: Tier) -> BoxedStrategy<D02Case> {
        let tree = prop_oneof![
            40 => tree(false, true, tier.pick(10, 16)),
            1 => tree(true, true, tier.pick(10, 16)),
        ];
        let happening = prop_oneof![
            3 => any::<u8>().prop_map(Meanwhile::Remove),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(n, pipe)| Meanwhile::Replace(n, pipe)),
            1 => (any::<u8>(), file_name()).prop_map(|(n, name)| Meanwhile::Create(n, name)),
        ];
        let meanwhile = prop_oneof![
            5 => Just(Vec::new()),
            1 => vec((0u8..4, happening), 1..5),
        ];
        (tree, meanwhile).prop_map(|(tree, meanwhile)| D02Case { tree, meanwhile }).boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(300_000, 3_000_000)
    }

    fn run(case: &D02Case, obs: &mut Obs) -> R {
        let mut tree = Tree::build(&case.tree);
        let (context, cwd) = tree.context(case.tree.spelling);
        must(std::env::set_current_dir(cwd), "changing directory");

        let repo = repository(&tree, context.clone());
        let mut got: Vec<PathBuf> = listing(&repo).iter().map(|doc| doc.id().clone()).collect();
        let mut want = tree.listed(case.tree.spelling);
        got.sort();
        want.sort();
        let texts = |v: &[PathBuf]| v.iter().map(|p| p.as_os_str().to_owned()).collect::<Vec<_>>();
        ensure_eq!(
            texts(&got),
            texts(&want),
            "documents of {context:?} with extension {:?}",
            tree.ext
        );

        if case.tree.entries.len() % 4 == 1 && want.len() < 100 {
            // Two at once, of the same directory: neither takes anything from the other.
            let other = repository(&tree, context.clone());
            let (mut one, mut two) = (repo.all(), other.all());
            let mut both = [Vec::new(), Vec::new()];
            while let (false, next) = (both[0].len() > want.len(), [one.next(), two.next()]) {
                if next.iter().all(|doc| doc.is_none()) {
                    break;
                }
                for (ids, doc) in both.iter_mut().zip(next) {
                    ids.extend(doc.map(|doc| doc.id().as_os_str().to_owned()));
                }
            }
            let mut want = texts(&want);
            want.sort();
            for mut ids in both {
                ids.sort();
                ensure_eq!(ids, want, "documents of {context:?}, listed twice at once");
            }
            obs.label("listed twice at once");
        }

        let files = tree.nodes.len();
        obs.nontrivial(!want.is_empty() && files > want.len());
        obs.label_if(!want.is_empty(), "some documents");
        obs.label_if(want.iter().any(|id| id.components().count() > 1), "nested documents");
        obs.label_if(
            tree.nodes.iter().any(|(k, n)| {
                matches!(n, Node::File(_)) && !k.last().unwrap().starts_with(b".") && tree.ignored(k, false)
            }),
            "excluded by an ignore file",
        );
        describe_tree(&tree, obs);
        if !case.meanwhile.is_empty() {
            obs.label("listed while changing");
            tree.list_meanwhile(case, &repo, obs)?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    /// Rewrites one of the files behind the documents.
    Write(u8, String),
    Remove(u8),
    /// Changes a byte of such a file, leaving its length and its times alone.
    Touch(u8, u8),
    /// Puts a directory, a pipe, a socket or a link to nowhere in its place.
    Replace(u8, u8),
    /// Puts back, elsewhere in time, a file of that name.
    Restore(u8, String),
    /// First or later access of one of the lazy documents.
    Access(u8),
    /// Looks a listed identifier up.
    Find(u8),
    /// Looks up any identifier.
    Probe(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D03Case {
    pub tree: TreeSpec,
    pub changes: Vec<Change>,
}

fn any_id() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (vec(dir_name(), 0..3), file_name()).prop_map(|(mut p, n)| { p.push(n); p.join("/") }),
        3 => (vec(dir_name(), 0..3), names(&[""])).prop_map(|(mut p, n)| { p.push(n); p.join("/") }),
        2 => select(vec!["", ".", "..", "a/", "a/.", "sub/..", "../base", "../base/a", "a//b", "./a", "sub/../a", "../../out/o", "a\u{0}b", " ", "nothing"]).prop_map(str::to_owned),
    ]
    .boxed()
}

pub struct D03;

impl Prop for D03 {
    type Case = D03Case;

    const ID: &'static str = "D03";
    const RULE: &'static str = "directory trees as for D02, followed by a history of rewritten, removed and restored files, lookups of listed and of other identifiers, and accesses to the lazy documents of the listing; every lookup compared with the file the identifier was listed for (every file has a content of its own); non-trivial: at least one document looked up or accessed after one of the files changed, or two documents in one directory";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "files are read as a whole; a file changing while it is being read is out of scope",
        "identifiers that were not listed but name an existing file (hidden or ignored ones) may resolve or not",
    ];

    fn strategy(tier: Tier) -> BoxedStrategy<D03Case> {
        let change = prop_oneof![
            2 => (any::<u8>(), content()).prop_map(|(n, s)| Change::Write(n, s)),
            1 => any::<u8>().prop_map(Change::Remove),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(n, at)| Change::Touch(n, at)),
            1 => (any::<u8>(), 0u8..4).prop_map(|(n, by)| Change::Replace(n, by)),
            1 => (any::<u8>(), content()).prop_map(|(n, s)| Change::Restore(n, s)),
            3 => any::<u8>().prop_map(Change::Access),
            2 => any::<u8>().prop_map(Change::Find),
            2 => any_id().prop_map(Change::Probe),
        ];
        (tree(true, true, tier.pick(9, 14)), vec(change, 0..10))
            .prop_map(|(tree, changes)| D03Case { tree, changes })
            .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(220_000, 2_500_000)
    }

    fn run(case: &D03Case, obs: &mut Obs) -> R {
        let tree = Tree::build(&case.tree);
        let (context, cwd) = tree.context(case.tree.spelling);
        must(std::env::set_current_dir(cwd), "changing directory");
        // The documents do not depend on what they were listed by being kept.
        let docs = listing(&repository(&tree, context.clone()));
        let repo = repository(&tree, context);

        // The file each identifier stands for, by its very name.
        let file_of = |id: &Path| -> Option<PathBuf> {
            // A trailing separator makes no other identifier of it.
            let mut name = id.file_name()?.to_owned();
            name.push(".");
            name.push(&tree.ext);
            Some(tree.base.join(id).with_file_name(name))
        };
        let content = |path: &Path| fs::metadata(path).ok().filter(|m| m.is_file()).and_then(|_| fs::read(path).ok());
        let find = |id: &PathBuf, file: &Path, at: &str| -> R {
            let want = content(file);
            let got = repo.find_by_id(id);
            match (&got, &want) {
                (Some(doc), Some(bytes)) => {
                    ensure_eq!(doc.id().as_os_str(), id.as_os_str(), "{at}: identifier of the document found for {id:?}");
                    ensure!(
                        doc.bytes == *bytes,
                        "{at}: {id:?} resolves to {:?}, not to the content of {file:?}: {:?}",
                        OsStr::from_bytes(&doc.bytes),
                        OsStr::from_bytes(bytes)
                    );
                    Ok(())
                }
                (None, None) => Ok(()),
                (Some(doc), None) => Err(format!(
                    "{at}: {id:?} has no file but resolves to {:?}",
                    OsStr::from_bytes(&doc.bytes)
                )
                .into()),
                (None, Some(_)) => Err(format!("{at}: {id:?} resolves to nothing, {file:?} exists").into()),
            }
        };

        let mut seen = BTreeSet::new();
        let mut listed = Vec::new();
        for doc in &docs {
            let id = doc.id().clone();
            let Some(file) = file_of(&id).filter(|f| content(f).is_some()) else {
                return Err(format!("{id:?} was listed, but no file goes by that name").into());
            };
            ensure!(seen.insert(id.clone()), "{id:?} was listed twice");
            find(&id, &file, "after listing")?;
            listed.push((id, file));
        }

        let mut changed = false;
        let mut late = false;
        let mut loaded: Vec<Option<Vec<u8>>> = vec![None; docs.len()];
        let pick = |n: u8| (!listed.is_empty()).then(|| usize::from(n) % listed.len());
        for (i, change) in case.changes.iter().enumerate() {
            crate::runner::meanwhile();
            let at = format!("step {i}");
            match change {
                Change::Write(n, text) => {
                    let Some(k) = pick(*n) else { continue };
                    let file = &listed[k].1;
                    if content(file).is_some() {
                        must(fs::write(file, bytes_of(&text.replace('@', &format!("<{i}!>")), "")), "rewriting");
                        changed = true;
                    }
                }
                Change::Touch(n, at) => {
                    let Some(k) = pick(*n) else { continue };
                    let file = &listed[k].1;
                    let Some(mut bytes) = content(file).filter(|bytes| !bytes.is_empty()) else { continue };
                    let meta = must(fs::metadata(file), "metadata");
                    let at = usize::from(*at) % bytes.len();
                    bytes[at] ^= 1;
                    must(fs::write(file, bytes), "changing a byte");
                    let times = fs::FileTimes::new()
                        .set_modified(must(meta.modified(), "times"))
                        .set_accessed(must(meta.accessed(), "times"));
                    must(must(fs::File::options().write(true).open(file), "times").set_times(times), "times");
                    changed = true;
                    obs.label("files changed unnoticeably");
                }
                Change::Restore(n, text) => {
                    let Some(k) = pick(*n) else { continue };
                    let file = &listed[k].1;
                    if fs::symlink_metadata(file).is_err() {
                        must(fs::write(file, bytes_of(&text.replace('@', &format!("<{i}?>")), "")), "restoring");
                        changed = true;
                    }
                }
                Change::Remove(n) => {
                    let Some(k) = pick(*n) else { continue };
                    if let Ok(meta) = fs::symlink_metadata(&listed[k].1) {
                        if meta.is_dir() {
                            must(fs::remove_dir(&listed[k].1), "removing");
                        } else {
                            must(fs::remove_file(&listed[k].1), "removing");
                        }
                        changed = true;
                    }
                }
                Change::Replace(n, by) => {
                    let Some(k) = pick(*n) else { continue };
                    let file = &listed[k].1;
                    if fs::symlink_metadata(file).is_ok_and(|m| !m.is_dir()) {
                        must(fs::remove_file(file), "removing");
                        match by % 4 {
                            0 => must(fs::create_dir(file), "replacing"),
                            1 => make_fifo(file),
                            2 => make_socket(file),
                            _ => must(symlink("nowhere", file), "replacing"),
                        }
                        changed = true;
                        obs.label("files replaced by something else");
                    }
                }
                Change::Access(n) => {
                    let Some(k) = pick(*n) else { continue };
                    let (id, file) = &listed[k];
                    let want = loaded[k].clone().or_else(|| content(file));
                    let got = docs[k].try_deref();
                    ensure!(
                        got.map(|doc| &doc.bytes) == want.as_ref(),
                        "{at}: lazy document {id:?} yields {:?}, want {:?}",
                        got.map(|doc| OsStr::from_bytes(&doc.bytes)),
                        want.as_deref().map(OsStr::from_bytes)
                    );
                    if let Some(doc) = got {
                        ensure_eq!(doc.id(), id, "{at}: identifier of the content of {id:?}");
                    }
                    ensure_eq!(docs[k].id(), id, "{at}: identifier of a lazy document");
                    loaded[k] = want;
                    late |= changed;
                }
                Change::Find(n) => {
                    let Some(k) = pick(*n) else { continue };
                    find(&listed[k].0, &listed[k].1, &at)?;
                    late |= changed;
                }
                Change::Probe(text) => {
                    let id = PathBuf::from(os(&bytes_of(text, &tree.ext)));
                    if id.is_absolute() {
                        continue;
                    }
                    let known = listed.iter().find(|(l, _)| *l == id).cloned();
                    if let Some((_, file)) = known {
                        // The same identifier, possibly spelled otherwise.
                        let got = repo.find_by_id(&id).map(|doc| doc.bytes);
                        ensure!(got == content(&file), "{at}: {id:?} does not resolve to {file:?}");
                        obs.label("listed identifier by another way");
                        continue;
                    }
                    match file_of(&id) {
                        Some(file) if content(&file).is_some() => {
                            // A file that is there, but none that was listed.
                            let _ = repo.find_by_id(&id);
                        }
                        _ => {
                            let got = repo.find_by_id(&id);
                            ensure!(
                                got.is_none(),
                                "{at}: {id:?} has no file but resolves to {:?}",
                                got.map(|doc| os(&doc.bytes))
                            );
                            obs.label("identifier with no file");
                        }
                    }
                }
            }
        }
        for (id, file) in &listed {
            find(id, file, "in the end")?;
        }

        let dirs: BTreeSet<_> = listed.iter().map(|(id, _)| id.parent()).collect();
        obs.nontrivial(late || dirs.len() < listed.len());
        obs.label_if(late, "used after a change");
        obs.label_if(!listed.is_empty(), "some documents");
        obs.label_if(
            listed.iter().any(|(id, _)| id.file_name().is_some_and(|n| n.as_bytes().contains(&b'.'))),
            "identifiers with dots",
        );
        describe_tree(&tree, obs);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ident {
    /// One of the documents.
    Listed(u8),
    Text(String),
    /// What is nearly, or another spelling of, one of the documents.
    Near(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Verb {
    List(bool),
    Delete(Option<Ident>),
    Save(Option<Ident>, Option<String>),
    /// Anything.
    Junk(Vec<String>),
}

/// Where the program is run.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Place {
    Ordinary,
    /// Without any environment variable.
    NoEnv,
    /// With an output nothing can be written to.
    Full,
    /// With an output nobody reads.
    Unread,
    /// In a working directory that was removed.
    NoDir,
    /// With an input that never ends and never has anything to read.
    Input,
    /// With one of `VARIABLES` set.
    Env(u8),
    /// With few files that may be open at once.
    FewFiles,
}

/// Variables that programs like this one or the libraries they use look at.
const VARIABLES: &[(&str, &str)] = &[
    ("RUST_LOG", "off"),
    ("RUST_LOG", "trace"),
    ("RUST_BACKTRACE", "full"),
    ("NO_COLOR", "1"),
    ("CLICOLOR_FORCE", "1"),
    ("TERM", "dumb"),
    ("COLUMNS", "1"),
    ("LANG", "tr_TR.UTF-8"),
    ("LC_ALL", "C"),
    ("PWD", "/nowhere"),
    ("HOME", "relative/home"),
    ("HOME", ""),
    ("TMPDIR", "/nowhere"),
    ("GIT_DIR", "/nowhere"),
    ("EXTENSION", "other"),
    ("CONTEXT", "/nowhere"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Invocation {
    pub verb: Verb,
    /// Where and how the options are given.
    pub style: u8,
    pub place: Place,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Case {
    pub tree: TreeSpec,
    pub calls: Vec<Invocation>,
}

fn cli() -> PathBuf {
    std::env::var_os("VH_CLI")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif/target/cli/debug/plotline"))
}

struct Outcome {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}

/// Runs the program under test; an error describes how it failed to end by itself.
fn spawn(args: &[OsString], cwd: &Path, place: Place) -> Result<Outcome, String> {
    let mut cmd = Command::new(cli());
    cmd.args(args)
        .current_dir(cwd)
        .env_clear()
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let gone = (place == Place::NoDir).then(|| {
        let dir = home().join("gone");
        must(fs::create_dir_all(&dir), "directory to be removed");
        cmd.current_dir(&dir);
        std::ffi::CString::new(dir.into_os_string().into_vec()).expect("path")
    });
    match place {
        Place::Full => {
            cmd.stdout(must(fs::OpenOptions::new().write(true).open("/dev/full"), "full device"));
        }
        Place::Unread => {
            let (reader, writer) = must(std::io::pipe(), "pipe");
            drop(reader);
            cmd.stdout(writer);
        }
        Place::Input => {
            cmd.stdin(Stdio::piped());
        }
        _ => {}
    }
    if place != Place::NoEnv {
        cmd.env("HOME", home().join("home"))
            .env("XDG_CONFIG_HOME", home().join("home"))
            .env("PATH", "/usr/bin:/bin");
    }
    if let Place::Env(n) = place {
        let (name, value) = VARIABLES[usize::from(n) % VARIABLES.len()];
        cmd.env(name, value);
    }
    // SAFETY: only async-signal-safe calls between fork and exec.
    unsafe {
        cmd.pre_exec(move || {
            // The directory of this process by now, and empty.
            if let Some(dir) = &gone {
                libc::rmdir(dir.as_ptr());
            }
            let cpu = libc::rlimit {
                rlim_cur: 60,
                rlim_max: 60,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            if place == Place::FewFiles {
                let files = libc::rlimit {
                    rlim_cur: 24,
                    rlim_max: 24,
                };
                libc::setrlimit(libc::RLIMIT_NOFILE, &files);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = must(cmd.spawn(), "starting the program");
    let pid = child.id();
    let reader = |mut from: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut bytes = Vec::new();
            let _ = from.read_to_end(&mut bytes);
            bytes
        })
    };
    // Otherwise the other end of the output would stay open.
    drop(cmd);
    let out = child.stdout.take().map(|out| reader(Box::new(out)));
    let err = reader(Box::new(child.stderr.take().unwrap()));

    // Blocked for good: no processor time used for long, and asleep.
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let guard = std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            match rx.recv_timeout(Duration::from_millis(500)) {
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
                _ => return false,
            }
            match proc_sample(pid) {
                Some((ticks, true)) if ticks == last.0 => {}
                Some((ticks, _)) => last = (ticks, Instant::now()),
                None => return false,
            }
            if last.1.elapsed() > Duration::from_secs(20) {
                // SAFETY: the child is not waited for until this thread is joined.
                unsafe { libc::kill(pid as i32, libc::SIGKILL) };
                return true;
            }
        }
    });
    let stdout = out.and_then(|out| out.join().ok()).unwrap_or_default();
    let stderr = err.join().unwrap_or_default();
    // The pipes are closed: the process is gone, or about to be.
    let deadline = Instant::now() + Duration::from_secs(1);
    let status = loop {
        match must(child.try_wait(), "waiting") {
            Some(status) => break Some(status),
            None if Instant::now() > deadline => break None,
            None => std::thread::yield_now(),
        }
    };
    drop(tx);
    let blocked = guard.join().unwrap_or(false);
    let status = match status {
        Some(status) => status,
        None => must(child.wait(), "waiting"),
    };
    if blocked {
        return Err("the program is blocked for good".into());
    }
    match status.signal() {
        Some(libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP) => {
            must(Err::<(), _>(status), "program ended from outside");
            unreachable!()
        }
        // The customary end of a program whose output nobody reads.
        Some(libc::SIGPIPE) if place == Place::Unread => Ok(Outcome {
            code: None,
            stdout,
            stderr: b"broken pipe".to_vec(),
        }),
        Some(signal) => Err(format!("the program died on signal {signal}")),
        None => Ok(Outcome {
            code: status.code(),
            stdout,
            stderr,
        }),
    }
}

const RESERVED: &[&str] = &["delete", "list", "ls", "save", "help"];

/// Something close to an identifier. Never leads out of the directory the identifier is in.
fn near(id: &Path, how: u8, ext: &str) -> OsString {
    let bytes = id.as_os_str().as_bytes();
    let text = match how {
        0 => [b"./", bytes].concat(),
        1 => [bytes, b"/"].concat(),
        2 => [bytes, b"/."].concat(),
        3 => bytes.split(|b| *b == b'/').collect::<Vec<_>>().join(&b"//"[..]),
        4 => bytes.split(|b| *b == b'/').collect::<Vec<_>>().join(&b"/./"[..]),
        5 => [b"x/../", bytes].concat(),
        6 => [bytes, b".", ext.as_bytes()].concat(),
        7 => [bytes, b" "].concat(),
        8 => [b" ", bytes].concat(),
        9 => bytes.to_ascii_uppercase(),
        10 => bytes[..bytes.len() - 1].to_vec(),
        _ => bytes.split(|b| *b == b'/').next().unwrap_or_default().to_vec(),
    };
    OsString::from_vec(text)
}

fn invocation() -> BoxedStrategy<Invocation> {
    let ident = || {
        prop_oneof![
            3 => any::<u8>().prop_map(Ident::Listed),
            2 => any_id().prop_map(Ident::Text),
            2 => (any::<u8>(), 0u8..12).prop_map(|(n, how)| Ident::Near(n, how)),
        ]
    };
    let content = proptest::option::of(prop_oneof![
        select(vec!["", "text", "delete", "list", "a b", "é", "x\ny", "help", "save"]).prop_map(str::to_owned),
        "[a-zA-Z =/]{0,8}",
    ]);
    let token = prop_oneof![
        3 => select(vec!["doc", "doc", "doc", "list", "ls", "delete", "save", "help"]),
        2 => select(vec!["a", "b", "", "x y", "é", "sub/a", "nothing", "md"]),
        2 => select(vec!["-C", "-e", "--context", "--extension", "--extension=md", "--context=.", "-emd", "-C.", "-e=", "--context="]),
        1 => select(vec!["-h", "--help", "-V", "--version", "--", "-", "--nope", "-x", "-hV", "--ext", "--=", "-e("]),
    ];
    let verb = prop_oneof![
        4 => any::<bool>().prop_map(Verb::List),
        4 => proptest::option::weighted(0.9, ident()).prop_map(Verb::Delete),
        3 => (proptest::option::weighted(0.9, ident()), content).prop_map(|(i, c)| Verb::Save(i, c)),
        2 => vec(token.prop_map(str::to_owned), 0..6).prop_map(Verb::Junk),
    ];
    let place = prop_oneof![
        20 => Just(Place::Ordinary),
        2 => Just(Place::NoEnv),
        1 => Just(Place::Full),
        1 => Just(Place::Unread),
        1 => Just(Place::NoDir),
        1 => Just(Place::Input),
        2 => any::<u8>().prop_map(Place::Env),
        1 => Just(Place::FewFiles),
    ];
    (verb, any::<u8>(), place)
        .prop_map(|(verb, style, place)| Invocation { verb, style, place })
        .boxed()
}

pub struct C01;

impl C01 {
    /// Whether the files are still as they were.
    fn call(tree: &Tree, spelling: u8, call: &Invocation, obs: &mut Obs) -> Result<bool, Fail> {
        let docs: BTreeSet<PathBuf> = tree.listed(spelling).into_iter().collect();
        let place = call.place;
        let (context, base_cwd) = match tree.context(spelling) {
            // There is nothing to be relative to.
            (context, _) if place == Place::NoDir && context.is_relative() => {
                (tree.base.clone(), tree.base.parent().unwrap().to_owned())
            }
            found => found,
        };
        // A base that is no directory may as well be rejected.
        let lenient = spelling % SPELLINGS >= MISSING;

        if let Verb::Junk(tokens) = &call.verb {
            let args: Vec<OsString> = tokens.iter().map(|t| os(&bytes_of(t, &tree.ext))).collect();
            let out = spawn(&args, &tree.base, place).map_err(|e| format!("{args:?}: {e}"))?;
            ensure!(out.code != Some(101), "{args:?}: crashed: {}", String::from_utf8_lossy(&out.stderr));
            ensure!(
                out.code == Some(0) || !out.stderr.is_empty(),
                "{args:?}: rejected with status {:?} and no message",
                out.code
            );
            obs.label_if(out.code != Some(0), "rejected command lines");
            return Ok(true);
        }

        // The options, each in one of the forms and places it may take.
        let mut options: Vec<Vec<OsString>> = Vec::new();
        let glued = |name: &str, value: &OsStr| {
            let mut s = OsString::from(name);
            s.push(value);
            vec![s]
        };
        let apart = |name: &str, value: &OsStr| vec![name.into(), value.to_owned()];
        let style = call.style;
        let default_context = style & 1 == 1 && tree.base == base_cwd && place != Place::NoDir;
        if !default_context {
            options.push(match style >> 1 & 3 {
                0 => apart("-C", context.as_os_str()),
                1 => apart("--context", context.as_os_str()),
                2 => glued("--context=", context.as_os_str()),
                _ => glued("-C", context.as_os_str()),
            });
        }
        let ext = OsStr::new(&tree.ext);
        if !(tree.ext == "md" && style & 8 == 8) {
            options.push(match style >> 4 & 3 {
                1 => apart("--extension", ext),
                2 if !tree.ext.is_empty() => glued("--extension=", ext),
                3 if !tree.ext.is_empty() && !tree.ext.starts_with('=') => glued("-e", ext),
                _ => apart("-e", ext),
            });
        }

        // An identifier that reads as something else is no identifier to the command line.
        let text = |ident: &Option<Ident>| -> Option<Option<OsString>> {
            let id = match ident {
                None => return Some(None),
                Some(Ident::Listed(n)) if !docs.is_empty() => docs
                    .iter()
                    .nth(usize::from(*n) % docs.len())
                    .unwrap()
                    .clone()
                    .into_os_string(),
                Some(Ident::Near(n, how)) if !docs.is_empty() => {
                    near(docs.iter().nth(usize::from(*n) % docs.len()).unwrap(), *how, &tree.ext)
                }
                Some(Ident::Listed(_) | Ident::Near(..)) => "nothing".into(),
                Some(Ident::Text(text)) => os(&bytes_of(text, &tree.ext)),
            };
            let s = id.to_str()?;
            let plain = !s.starts_with('-') && !s.contains('\0') && !RESERVED.contains(&s) && !s.starts_with('/');
            plain.then_some(Some(id))
        };

        let mut words: Vec<OsString> = Vec::new();
        let (verb, tail, id) = match &call.verb {
            Verb::List(short) => (if *short { "ls" } else { "list" }, None, None),
            Verb::Delete(ident) => match text(ident) {
                Some(id) => ("delete", None, id),
                None => return Ok(true),
            },
            Verb::Save(ident, content) => match text(ident) {
                Some(id) => ("save", content.clone().map(OsString::from), id),
                None => return Ok(true),
            },
            Verb::Junk(_) => unreachable!(),
        };
        let options: Vec<OsString> = options.concat();
        let mut args: Vec<OsString> = Vec::new();
        let position = style >> 6 & 3;
        if position == 0 {
            args.extend(options.clone());
        }
        args.push("doc".into());
        if position == 1 {
            args.extend(options.clone());
        }
        words.extend(id.clone());
        args.extend(words);
        args.push(verb.into());
        if position == 2 {
            args.extend(options.clone());
        }
        args.extend(tail);
        if position == 3 {
            args.extend(options);
        }

        let before = tree.snapshot();
        let out = spawn(&args, &base_cwd, place).map_err(|e| format!("{args:?} ({place:?}): {e}"))?;
        let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
        let ok = out.code == Some(0);
        ensure!(out.code != Some(101), "{args:?}: crashed: {stderr}");
        ensure!(ok || !out.stderr.is_empty(), "{args:?}: rejected with no message");
        match (&call.verb, &id) {
            _ if lenient && !ok => obs.label("no base directory"),
            (Verb::List(_), _) if matches!(place, Place::Full | Place::Unread) => {
                ensure_eq!(
                    ok,
                    docs.is_empty(),
                    "{args:?}: success of a listing of {} documents that cannot be written",
                    docs.len()
                );
                obs.label("listings that cannot be written");
            }
            (Verb::List(_), _) => {
                ensure!(ok, "{args:?}: listing failed: {stderr}");
                let want: String = docs.iter().map(|id| format!("{id:?}\n")).collect();
                let got = String::from_utf8_lossy(&out.stdout);
                ensure_eq!(got, want, "{args:?}: printed");
            }
            (Verb::Delete(_), Some(id)) => {
                let known = docs.contains(Path::new(id));
                ensure_eq!(ok, known, "{args:?}: success, for a document that exists: {known} ({stderr})");
                obs.label(if known { "deletes of a document" } else { "deletes of nothing" });
            }
            (Verb::Save(..), Some(_)) => {
                ensure!(ok, "{args:?}: saving failed: {stderr}");
                obs.label("saves");
            }
            _ => {
                ensure!(!ok, "{args:?}: succeeded without an identifier");
                obs.label("commands without an identifier");
            }
        }
        let unchanged = before == tree.snapshot();
        ensure!(
            unchanged || (ok && !matches!(call.verb, Verb::List(_))),
            "{args:?}: files changed: before {before:?}, after {:?}",
            tree.snapshot()
        );
        Ok(unchanged)
    }
}

impl Prop for C01 {
    type Case = C01Case;

    const ID: &'static str = "C01";
    const WITHIN: f64 = 0.0;
    const RULE: &'static str = "directory trees as for D02 and one to three invocations of the real program on each: listings, deletes and saves with the options in every form and place, and arbitrary command lines; status, output and the files left behind compared with what the tree that was generated calls for; non-trivial: at least one document, and a listing or a command on an identifier";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "identifiers and contents are given as text that does not read as an option or a subcommand",
        "the error stream can be written to",
    ];
    const SPAWNS: bool = true;

    fn strategy(tier: Tier) -> BoxedStrategy<C01Case> {
        (tree(false, false, tier.pick(8, 12)), vec(invocation(), 1..4))
            .prop_map(|(mut tree, calls)| {
                // It depends on the environment, which varies with the place.
                tree.global.clear();
                C01Case { tree, calls }
            })
            .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(16_000, 250_000)
    }

    fn run(case: &C01Case, obs: &mut Obs) -> R {
        let tree = Tree::build(&case.tree);
        for call in &case.calls {
            // What a command that was carried out did to the files is its own business.
            if !C01::call(&tree, case.tree.spelling, call, obs)? {
                break;
            }
        }
        obs.nontrivial(
            !tree.documents().is_empty() && case.calls.iter().any(|c| !matches!(c.verb, Verb::Junk(_))),
        );
        describe_tree(&tree, obs);
        Ok(())
    }
}
