//! Document commands on a schema with hooks (C02).

use std::{
    cell::RefCell,
    collections::BTreeMap,
    path::PathBuf,
    rc::Rc,
    sync::Arc,
};

use clap::{Command, FromArgMatches, Subcommand};
use plotline::{
    deref::{TryDeref, With, WithMut},
    document::{lazy::LazyDocument, DocumentRepository},
    graph::{Graph, Source},
    id::Identify,
    prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave},
    schema::{
        transaction::{Ctx, Target, Transaction},
        Error, Schema,
    },
};
use plotline_cli::{
    document::{Document, DocumentCli},
    CliCommand,
};
use proptest::{collection::vec, prelude::*, sample::select, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    runner::{Obs, Prop, Tier, R},
};

/// A repository in memory.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Memory(BTreeMap<PathBuf, Vec<u8>>);

impl DocumentRepository for Memory {
    type Document = Document;

    fn find_by_id(&self, id: &PathBuf) -> Option<Document> {
        Some(Document {
            path: id.clone(),
            bytes: self.0.get(id)?.clone(),
        })
    }
}

type Node = LazyDocument<Memory>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Nothing,
    Fail(String),
    Noop,
    /// Puts another document in place of the target.
    Replace(String, String),
    /// Saves or deletes some document in a nested transaction.
    Write(String, Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hook {
    /// Before save, after save, before delete, after delete.
    pub sched: u8,
    /// Acts for the target of this identifier only.
    pub only: Option<String>,
    pub act: Do,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Save(Option<String>, Option<String>),
    Delete(Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub stored: Vec<(String, String)>,
    /// Listed, but not there any more.
    pub gone: Vec<String>,
    pub hooks: Vec<Hook>,
    pub commands: Vec<Cmd>,
}

/// What a hook sees: its number, the target and all the documents by identifier.
type Seen = (usize, Option<(PathBuf, Option<Vec<u8>>)>, Vec<bool>);

type Log = Rc<RefCell<Vec<Seen>>>;

fn error(act: &Do) -> Error {
    match act {
        Do::Fail(text) => Error::custom(text),
        _ => Error::Noop,
    }
}

/// What the schema should hold: content known, or to be looked up.
type Model = BTreeMap<PathBuf, Option<Vec<u8>>>;

struct Oracle<'a> {
    repo: &'a Memory,
    hooks: &'a [Hook],
    ids: &'a [PathBuf],
    log: Vec<Seen>,
}

impl Oracle<'_> {
    fn content(&self, id: &PathBuf, known: &Option<Vec<u8>>) -> Option<Vec<u8>> {
        known.clone().or_else(|| self.repo.0.get(id).cloned())
    }

    fn fire(
        &mut self,
        sched: u8,
        view: &mut Model,
        target: &mut (PathBuf, Option<Vec<u8>>),
    ) -> Result<(), String> {
        for (i, hook) in self.hooks.iter().enumerate() {
            if hook.sched % 4 != sched {
                continue;
            }
            let seen = (target.0.clone(), self.content(&target.0, &target.1));
            let there = self.ids.iter().map(|id| view.contains_key(id)).collect();
            self.log.push((i, Some(seen), there));
            if hook.only.as_ref().is_some_and(|id| PathBuf::from(id) != target.0) {
                continue;
            }
            match &hook.act {
                Do::Nothing => {}
                act @ (Do::Fail(_) | Do::Noop) => return Err(error(act).to_string()),
                Do::Replace(id, text) => *target = (id.into(), Some(text.clone().into_bytes())),
                Do::Write(id, Some(text)) => {
                    view.insert(id.into(), Some(text.clone().into_bytes()));
                }
                Do::Write(id, None) => {
                    view.remove(&PathBuf::from(id));
                }
            }
        }
        Ok(())
    }

    fn run(&mut self, model: &mut Model, cmd: &Cmd) -> Result<(), Option<String>> {
        let mut view = model.clone();
        match cmd {
            Cmd::Save(None, _) | Cmd::Delete(None) => return Err(None),
            Cmd::Save(Some(id), text) => {
                let text = text.clone().unwrap_or_default().into_bytes();
                let mut target = (PathBuf::from(id), Some(text));
                self.fire(0, &mut view, &mut target).map_err(Some)?;
                // An equal identifier may be written differently.
                view.remove(&target.0);
                view.insert(target.0.clone(), target.1.clone());
                self.fire(1, &mut view, &mut target).map_err(Some)?;
            }
            Cmd::Delete(Some(id)) => {
                let id = PathBuf::from(id);
                let Some((id, known)) = view.get_key_value(&id) else {
                    return Err(Some(Error::Noop.to_string()));
                };
                let mut target = (id.clone(), known.clone());
                let id = id.clone();
                self.fire(2, &mut view, &mut target).map_err(Some)?;
                view.remove(&id);
                self.fire(3, &mut view, &mut target).map_err(Some)?;
            }
        }
        *model = view;
        Ok(())
    }
}

fn act(hook: &Hook, repo: &Arc<Memory>, ctx: &Ctx<'_, Node>, target: &Target<Node>) -> plotline::schema::Result<()> {
    crate::runner::meanwhile();
    let document = |id: &str, text: &str| {
        LazyDocument::new(
            repo.clone(),
            Document {
                path: id.into(),
                bytes: text.into(),
            },
        )
    };
    match &hook.act {
        Do::Nothing => {}
        act @ (Do::Fail(_) | Do::Noop) => return Err(error(act)),
        Do::Replace(id, text) => {
            target.with_mut(|t: &mut Node| *t = document(id, text));
        }
        Do::Write(id, text) => ctx.transaction().with(|c| {
            match text {
                Some(text) => c.save(document(id, text)),
                None => c.delete(id.into()),
            }
            Ok(())
        })?,
    }
    Ok(())
}

fn schema(case: &Case, repo: &Arc<Memory>, ids: &Rc<[PathBuf]>, log: &Log) -> Schema<Node> {
    let build = LazyDocument::builder(repo.clone());
    let listed: Vec<PathBuf> = repo.0.keys().cloned().chain(case.gone.iter().map(PathBuf::from)).collect();
    let mut schema = Schema::from(Graph::from_iter(listed.into_iter().map(build)));
    for (i, hook) in case.hooks.iter().enumerate() {
        let (hook, repo, ids, log) = (hook.clone(), repo.clone(), ids.clone(), log.clone());
        let sched = hook.sched % 4;
        let run = move |ctx: Ctx<'_, Node>, target: Target<Node>| {
            let seen = target.with(|t: &Node| (t.id().clone(), t.try_deref().map(|d| d.bytes.clone())));
            let mut there = Vec::new();
            // Looked at from within a transaction that leaves nothing behind.
            let _ = ctx.transaction().with(|c| {
                there = ids.iter().map(|id| c.contains(id)).collect();
                plotline::schema::Result::<()>::Err(Error::Noop)
            });
            let at = seen.as_ref().map(|(id, _)| id.clone());
            log.borrow_mut().push((i, seen, there));
            if hook.only.as_ref().is_some_and(|id| Some(PathBuf::from(id)) != at) {
                return Ok(());
            }
            act(&hook, &repo, &ctx, &target)
        };
        schema = match sched {
            0 => schema.with_trigger(BeforeSave, run),
            1 => schema.with_trigger(AfterSave, run),
            2 => schema.with_trigger(BeforeDelete, run),
            _ => schema.with_trigger(AfterDelete, run),
        };
    }
    schema
}

fn execute(cli: &DocumentCli<Memory>, cmd: &Cmd) -> Result<(), String> {
    let mut argv = vec!["plot", "doc"];
    let (id, verb, content) = match cmd {
        Cmd::Save(id, content) => (id, "save", content.as_deref()),
        Cmd::Delete(id) => (id, "delete", None),
    };
    argv.extend(id.as_deref());
    argv.push(verb);
    argv.extend(content);
    let matches = CliCommand::augment_subcommands(Command::new("plot"))
        .try_get_matches_from(&argv)
        .map_err(|err| format!("arguments: {err}"))?;
    let CliCommand::Doc(command) =
        CliCommand::from_arg_matches(&matches).map_err(|err| format!("arguments: {err}"))?;
    cli.execute(command).map_err(|err| format!("{err:#}"))
}

fn id() -> BoxedStrategy<String> {
    let common = || select(vec!["a", "b", "a/b", "a.b", "a/", "./a", "c d", "é", ""]).prop_map(str::to_owned);
    prop_oneof![
        40 => common(),
        // Of any length, some of them the beginning of another.
        1 => (common(), select(vec![2usize, 20, 33, 65, 129, 257, 1000])).prop_map(|(s, n)| s.repeat(n)),
        1 => "[A-Za-z0-9 ._/@#%+=~é-]{1,12}".prop_map(|s| s.trim_start_matches('-').to_owned()),
        1 => "[a-b]{1,3}",
        // What other programs read as something else than a name.
        1 => select(vec![
            "~/a", "~", "$HOME/a", "${HOME}", "%HOME%", "../a", "a/../b", "a/./b", "/a", "//a", "a//b", "a/.", "a\\b",
            "C:\\a", "file:///a", "a.md", "A", "É", "e\u{301}", "a%20b", "a+b", "a;b", "a,b", "a*", "[a]", "a#b", "a?b",
            "@a", "#1", "a:b", "a=b", "'a'", "\"a\"", "a\nb", "a\tb", "-", ".", "..", " a", "a ", "0", "1", "List", "deletes",
        ])
        .prop_map(str::to_owned),
    ]
    .prop_filter("not a subcommand", |s| !["save", "delete", "list", "ls", "help"].contains(&s.as_str()))
    .boxed()
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        9 => select(vec!["", "x", "text\n", "save", "é", "{}", "a b"]).prop_map(str::to_owned),
        2 => select(vec![
            "@a", "@/etc/hostname", "@/etc/passwd", "@Cargo.toml", "@-", "/etc/passwd", "</etc/passwd", "file:///etc/passwd", "-", "$HOME", "~/a", "$(echo a)",
            "`a`", "\\n", "\\u{e9}", "&amp;", "%41", "a\r\nb", "\u{FEFF}a", "#", "# a", "\n---\na: b\n---\n", "'a'", "\"a\"",
            "YQ==", "null", "true", "0", "{{a}}", "[a](b)", "a\n\n", "\ta",
        ])
        .prop_map(str::to_owned),
        1 => (1usize..20_000).prop_map(|n| "text ".repeat(n / 5 + 1)),
        3 => "[a-z\\PC]{0,12}".prop_map(|s| s.trim_start_matches('-').to_owned()),
    ]
    .boxed()
}

pub struct C02;

impl Prop for C02 {
    type Case = Case;

    const ID: &'static str = "C02";
    const RULE: &'static str = "schemas over documents of an instrumented repository (present ones, and listed ones that are gone) with up to five hooks that observe, fail, replace their target or write other documents, and up to five save and delete commands, parsed from their arguments as the program does; results, hook invocations and the documents held afterwards with their content compared with a model; non-trivial: a command that succeeds and one that is rejected, or a hook that ran";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "identifiers and contents are given as text that does not read as an option or a subcommand",
    ];

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let act = prop_oneof![
            4 => Just(Do::Nothing),
            2 => "[a-z{}% ]{0,6}".prop_map(Do::Fail),
            1 => Just(Do::Noop),
            2 => (id(), text()).prop_map(|(id, text)| Do::Replace(id, text)),
            2 => (id(), proptest::option::weighted(0.6, text())).prop_map(|(id, text)| Do::Write(id, text)),
        ];
        let hook = (0u8..4, proptest::option::weighted(0.5, id()), act)
            .prop_map(|(sched, only, act)| Hook { sched, only, act });
        let cmd = prop_oneof![
            4 => (proptest::option::weighted(0.95, id()), proptest::option::weighted(0.8, text()))
                .prop_map(|(id, text)| Cmd::Save(id, text)),
            4 => proptest::option::weighted(0.95, id()).prop_map(Cmd::Delete),
        ];
        (
            vec((id(), text()), 0..5),
            vec(id(), 0..2),
            vec(hook, 0..6),
            vec(cmd, 1..6),
        )
            .prop_map(|(stored, gone, hooks, commands)| Case {
                stored,
                gone,
                hooks,
                commands,
            })
            .boxed()
    }

    fn budget(tier: Tier) -> u32 {
        tier.pick(800_000, 6_000_000)
    }

    fn run(case: &Case, obs: &mut Obs) -> R {
        let repo = Arc::new(Memory(
            case.stored
                .iter()
                .map(|(id, text)| (PathBuf::from(id), text.clone().into_bytes()))
                .collect(),
        ));
        let ids: Rc<[PathBuf]> = ["a", "b", "a/b", "a.b", "./a", "c d", "é", "", "nothing"]
            .into_iter()
            .chain(case.stored.iter().map(|(id, _)| id.as_str()))
            .chain(case.gone.iter().map(String::as_str))
            .chain(case.commands.iter().filter_map(|cmd| match cmd {
                Cmd::Save(id, _) | Cmd::Delete(id) => id.as_deref(),
            }))
            .map(PathBuf::from)
            .collect();
        let log = Log::default();
        #[allow(clippy::arc_with_non_send_sync)]
        let cli = DocumentCli {
            schema: Arc::new(schema(case, &repo, &ids, &log)),
            document_repo: repo.clone(),
        };

        let mut model: Model = repo.0.keys().map(|id| (id.clone(), None)).collect();
        model.extend(case.gone.iter().map(|id| (PathBuf::from(id), None)).filter(|(id, _)| !repo.0.contains_key(id)));
        let mut oracle = Oracle {
            repo: &repo,
            hooks: &case.hooks,
            ids: &ids,
            log: Vec::new(),
        };
        let (mut done, mut rejected, mut hooked) = (false, false, false);

        for (i, cmd) in case.commands.iter().enumerate() {
            crate::runner::meanwhile();
            let got = execute(&cli, cmd);
            let want = oracle.run(&mut model, cmd);
            match (&got, &want) {
                (Ok(()), Ok(())) => done = true,
                (Err(_), Err(None)) => rejected = true,
                (Err(got), Err(Some(want))) => {
                    ensure!(got.contains(want.as_str()), "command {i}: {cmd:?}: got {got:?}, want {want:?}");
                    rejected = true;
                }
                _ => ensure!(false, "command {i}: {cmd:?}: got {got:?}, want {want:?}"),
            }
            let seen = log.take();
            let expected = std::mem::take(&mut oracle.log);
            hooked |= !expected.is_empty();
            ensure_eq!(seen, expected, "command {i}: {cmd:?}: hooks");

            let guard = cli.schema.read();
            let held: Vec<_> = guard
                .into_iter()
                .map(|doc| (doc.id().clone(), doc.try_deref().map(|d| (d.path.clone(), d.bytes.clone()))))
                .collect();
            let want: Vec<_> = model
                .iter()
                .map(|(id, known)| (id.clone(), oracle.content(id, known).map(|bytes| (id.clone(), bytes))))
                .collect();
            ensure_eq!(held, want, "command {i}: {cmd:?}: documents");
        }

        obs.nontrivial(hooked || (done && rejected));
        obs.label_if(done, "commands carried out");
        obs.label_if(rejected, "commands rejected");
        obs.label_if(hooked, "hooks ran");
        Ok(())
    }
}
