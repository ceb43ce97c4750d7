#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the texts is this file)."""
import json, os

TX = "plotline/src/schema/transaction.rs"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("G01", "A graph is a faithful map from identifier to its latest node",
     "A graph holds exactly one node per identifier, the one most recently put there by construction or insertion, until it is removed; inserting and removing return the node that was there before, if any. Lookup, membership, node handles and iteration all agree on that content, and iteration yields every node exactly once in ascending identifier order.",
     ["histories", "inputs"], "every sequence of build, insert, chained insert, remove, lookup and iterate, over any identifiers (collisions included)",
     "The existing tests build graphs of at most two nodes and never remove, overwrite or iterate; the claim is about every operation history.",
     ["plotline/src/graph/mod.rs", "plotline/src/schema/guard.rs"],
     [("Graph::{from_iter,with_node,insert,remove}", "plotline/src/graph/mod.rs"), ("Source for Graph, IntoIterator for &Graph", "plotline/src/graph/mod.rs")],
     [("nodes", "ordered map id -> node", "Graph in plotline/src/graph/mod.rs")],
     ["Graph::insert/remove return values", "Source::get / contains", "iteration over &Graph"])

prop("G02", "Node handles mirror their source and read it at most once",
     "A node handle yields the node its source holds for its identifier when it is first read (nothing if there is none), reads the source at most once, even when several threads read the handle at the same time, and repeats that answer forever, also through clones taken after that read; it counts as virtual exactly while the source holds no such node. Following edges from a handle yields one handle per declared edge, in order and with repetitions, on the same source, including edges to nodes that do not exist; a handle with no node has no successors.",
     ["inputs", "histories"], "every directed graph (cycles, self loops, parallel and dangling edges), every walk over it, every change made to the source between accesses, with a plain graph or an open transaction as source",
     "Three unit tests look at one- and two-node graphs; caching, dangling edges, duplicates, transaction sources and changing sources are never exercised.",
     ["plotline/src/graph/proxy.rs", "plotline/src/graph/mod.rs", TX],
     [("NodeProxy::{try_deref,successors,is_virtual,clone}", "plotline/src/graph/proxy.rs"), ("Context::node, Source for Context", TX)],
     [("value", "once-initialised cached lookup", "NodeProxy in plotline/src/graph/proxy.rs")],
     ["NodeProxy::try_deref", "NodeProxy::is_virtual", "NodeProxy::successors", "calls received by an instrumented Source"])

prop("S01", "Transactions are all-or-nothing and apply writes in order",
     "When a transaction's body succeeds, every save and delete it registered takes effect on the schema's graph in registration order, so that the last write to each identifier wins and every other node is untouched; when the body fails, or the transaction is dropped without running, the graph is exactly as before. The caller receives the body's own value or error unchanged, and the schema stays usable for later reads, writes and transactions.",
     ["histories", "inputs"], "every sequence of transactions (succeeding, failing, abandoned), direct read and write accesses on one schema, and every sequence of saves and deletes within each",
     "Two unit tests commit and abort one transaction with one delete and one save; repeated identifiers, long logs, sequences of transactions, returned values and later use are not covered.",
     [TX, "plotline/src/schema/mod.rs", "plotline/src/schema/guard.rs", "plotline/src/schema/error.rs"],
     [("Transaction for Background, Background::commit", TX), ("Context::{save,delete}", TX), ("SchemaReadGuard / SchemaWriteGuard", "plotline/src/schema/guard.rs")],
     [("operations", "pending write log of a transaction", TX), ("graph", "committed nodes", "plotline/src/schema/mod.rs")],
     ["result of Transaction::with", "Schema::read after every transaction"])

prop("S02", "Nested transactions: read your writes, isolation, merge on success",
     "Inside a transaction, a lookup returns the newest pending write of that transaction or, failing that, of its nearest enclosing one, and otherwise the stored node. Writes pending in a nested transaction are invisible to its parent and siblings until its body succeeds, when they take effect in the parent after everything the parent has written so far; if the body fails or the transaction is abandoned they vanish without trace. Nothing reaches the schema's graph before the outermost transaction succeeds.",
     ["histories", "schedules"], "every tree of nested transactions to any depth, every interleaving of operations among parents and simultaneously open siblings, and every combination of outcomes",
     "Four unit tests look at single nested levels with one write each; deep nesting, interleaved siblings, overwriting across levels and mixed outcomes are never combined.",
     [TX],
     [("Source for Context (own log, then parent, then graph)", TX), ("Foreground::commit appends to the parent log", TX)],
     [("operations", "pending write log, per nesting level", TX), ("parent", "enclosing context", TX)],
     ["Context::get / contains / node at every open level after every step", "Schema::read after the outermost transaction"])

prop("S03", "A panic leaves no partial effects and the schema usable",
     "A panic raised anywhere in a transaction body, a nested body or a hook discards the pending writes of exactly the bodies it unwinds through: an outer body that contains the panic keeps its own writes and can still succeed, and an uncontained panic leaves the graph exactly as before. Afterwards the schema accepts reads, writes and transactions with correct results. A save that reports success after a hook contained a panic has stored its node.",
     ["crash_points", "fault_sequences", "histories"], "every transaction program (nested bodies, saves, deletes, hooks) and every point of it at which a panic may be raised, contained at any enclosing level or nowhere",
     "No unit test panics inside a transaction; the claim quantifies over every panic point of every program.",
     [TX, "plotline/src/schema/guard.rs", "plotline/src/schema/ops/save.rs", "plotline/src/schema/ops/delete.rs"],
     [("commit only runs after the body returned", TX), ("poison recovery of the graph lock", "plotline/src/schema/guard.rs"), ("Save::execute", "plotline/src/schema/ops/save.rs")],
     [("graph lock poison flag", "set when a writer unwinds", "plotline/src/schema/mod.rs"), ("target lock poison flag", "set when a hook unwinds while mutating the target", TX)],
     ["Schema::read after the panic", "Context lookups after a contained panic", "result of the save"])

prop("S04", "Concurrent transactions behave as if run one at a time",
     "Whatever the interleaving of transactions, direct writes and reads issued by several threads on one schema, the resulting graph equals that of running the successful transactions one after another in some order that respects which of them ended before another began, each seeing all the effects of those before it, so that no successful update is lost and failed ones leave nothing. A read access never observes a partly applied transaction.",
     ["schedules", "histories"], "every set of read-modify-write transactions (some failing) and readers, and every interleaving of their threads",
     "All existing tests are single-threaded.",
     [TX, "plotline/src/schema/guard.rs", "plotline/src/schema/mod.rs"],
     [("write guard held from first context to the end of commit", TX), ("SchemaReadGuard / SchemaWriteGuard", "plotline/src/schema/guard.rs")],
     [("guard", "exclusive access held by an open transaction", TX)],
     ["final graph", "snapshots taken through Schema::read on other threads"])

prop("S05", "A save runs its hooks around the write as one unit",
     "Saving a node runs the before-save hooks in order, then writes the node as those hooks left it, then runs the after-save hooks, which already see the write; success means the node was written exactly once. If any hook fails, the save reports that hook's error, the remaining hooks do not run, and neither the node nor anything the hooks wrote remains. This holds equally for saves issued at top level, inside an open transaction or from within another hook.",
     ["programs", "histories"], "every set of registered hooks (observing, rewriting the node, writing, deleting, saving further nodes, failing, swallowing failures), every node, every nesting and every prior state",
     "No existing test executes a save operation or a save hook.",
     ["plotline/src/schema/ops/save.rs", "plotline/src/schema/trigger.rs", TX],
     [("Save::execute", "plotline/src/schema/ops/save.rs"), ("TriggerSelect::execute", "plotline/src/schema/trigger.rs"), ("Target", TX)],
     [("target", "node being saved, shared with hooks", TX)],
     ["what each hook observes (target, context view, resources)", "result of the save", "graph or enclosing transaction view afterwards"])

prop("S06", "Triggers run exactly as scheduled, with the right arguments",
     "Executing a schedule runs every trigger registered for it exactly once, in registration order, and none registered for another schedule; it stops at the first failure and returns that error, and an empty schedule succeeds. Every parameter a trigger declares is resolved from the context being executed and passed in its declared position, however many there are.",
     ["programs", "inputs"], "every assignment of triggers of any supported number of parameters to schedules, every failure position, and every context they are executed in",
     "One unit test counts runs of three never-failing triggers; order, failure, argument positions and numbers of parameters above two are not covered.",
     ["plotline/src/schema/trigger.rs", "plotline/src/schema/mod.rs", TX],
     [("TriggerSet::{with_trigger,select}", "plotline/src/schema/trigger.rs"), ("impl_trigger!", "plotline/src/schema/trigger.rs")],
     [("triggers", "schedule type -> triggers in registration order", "TriggerSet in plotline/src/schema/trigger.rs")],
     ["order and arguments of trigger invocations", "result of execute"])

prop("S07", "Resources: one shared value per type, all-or-nothing group access",
     "A schema holds at most one resource per type, the last one registered, and every handle to it, whether taken from the schema or received by a trigger, reads and mutates that same value. Accessing a type that was never registered, or a group of handles of which any is missing, yields nothing, runs no callback and changes nothing; any other access runs the callback once with each value in its own position and returns its result. A handle reports that its resource exists exactly when the type was registered. This holds as long as no callback has panicked while it had access to the resource.",
     ["histories", "configurations"], "every set of registered resource types with repetitions, every group of two to six handles in any order, and every sequence of reads and mutations through schema or trigger handles",
     "Two unit tests use one registered and one missing type; overwriting, sharing between handles, groups and trigger-side handles are not covered.",
     ["plotline/src/schema/resource.rs", "plotline/src/deref.rs", TX],
     [("ResourceSet::with_resource, Res", "plotline/src/schema/resource.rs"), ("With/WithMut and their tuple impls", "plotline/src/deref.rs")],
     [("resources", "type -> shared locked value", "ResourceSet in plotline/src/schema/resource.rs")],
     ["Res::{with,with_mut,exists}", "tuple with / with_mut"])

prop("S08", "A delete runs its hooks around the removal as one unit",
     "Deleting an existing node runs the before-delete hooks while it is still visible, removes it, then runs the after-delete hooks, which no longer see it; both receive the deleted node as their target. If any hook fails, the delete reports that error and neither the removal nor anything the hooks wrote remains. Deleting a node that is absent from the current view, pending writes included, runs no hook, changes nothing and reports the dedicated no-effect error.",
     ["programs", "histories"], "every set of registered hooks, every identifier (present, absent, pending save, pending delete), every nesting and every prior state",
     "No existing test executes a delete operation or a delete hook.",
     ["plotline/src/schema/ops/delete.rs", "plotline/src/schema/trigger.rs", TX, "plotline/src/schema/error.rs"],
     [("Delete::execute", "plotline/src/schema/ops/delete.rs"), ("TriggerSelect::execute", "plotline/src/schema/trigger.rs")],
     [("target", "copy of the node being deleted, shared with hooks", TX)],
     ["what each hook observes", "result of the delete", "graph or enclosing transaction view afterwards"])

prop("S09", "A schema is exactly what it was built from, plugins included",
     "A schema built from a graph starts with exactly that graph, whatever resources, triggers and plugins are added to it and in whatever order. Installing a plugin has exactly the effect of performing its registrations at that point, no more than once and without disturbing earlier ones: the resulting schema reacts to every later operation as one built by the flattened list of registrations.",
     ["configurations", "histories"], "every sequence of resource and trigger registrations and plugin installations (plugins nested in plugins included), over any initial graph, followed by any sequence of operations",
     "No existing test installs a plugin, and none adds more than one kind of thing to a non-empty graph.",
     ["plotline/src/schema/mod.rs", "plotline/src/schema/plugin.rs", "plotline/src/schema/resource.rs", "plotline/src/schema/trigger.rs"],
     [("From<Graph> for Schema, Schema::{install,with_resource,with_trigger}", "plotline/src/schema/mod.rs"), ("Plugin::install", "plotline/src/schema/plugin.rs")],
     [],
     ["graph right after building", "observation log of a following program, compared with the flattened build"])

prop("D01", "Lazy documents load on demand, at most once, and never lose a race",
     "A lazy document knows its identifier without loading, loads from its repository on first access, keeps what it loaded for every later access (and for clones taken afterwards) even if the repository changes, and never loads again once it has content; one built from given content never loads. A load that finds nothing yields nothing, and it, or one that panicked, is retried on the next access. Whenever the repository has the document, every access yields its content, also when several threads access it for the first time at once.",
     ["histories", "schedules", "fault_sequences"], "every history of accesses, clones and repository changes (appearing, changing, disappearing documents) over several handles, and every interleaving of first accesses from several threads",
     "No existing test touches lazy documents.",
     ["plotline/src/document/lazy.rs", "plotline/src/document/mod.rs"],
     [("LazyDocument::{try_deref,builder,new,clone}", "plotline/src/document/lazy.rs")],
     [("document", "once-initialised cached content", "LazyDocument in plotline/src/document/lazy.rs")],
     ["LazyDocument::try_deref / id", "calls received by an instrumented repository"])

prop("D02", "The directory listing is exactly the documents under the base directory",
     "Listing a base directory for an extension yields, exactly once each, one document for every file at any depth (a regular file, or a link to one) whose name is a non-empty stem followed by a dot and literally that extension, and nothing else: no directories, no files of other extensions, none that are hidden or excluded by the ignore files that apply to them (.ignore files anywhere, those of git, its exclude list and the user's own within a repository; of the directory itself and of those above it). Each document's identifier is the file's path relative to the base directory with just that final extension removed. No directory content or extension text makes the listing fail. Files and directories that come or go during a listing affect no other document of it.",
     ["inputs", "configurations"], "every directory tree (nested, hidden, ignored, dotted, non-UTF-8 names, directories named like documents, links), every spelling of the base directory and every extension text",
     "plotline-cli has no tests at all.",
     ["plotline-cli/src/repository.rs"],
     [("LocalDocumentRepository::all", "plotline-cli/src/repository.rs")],
     [],
     ["identifiers yielded by LocalDocumentRepository::all"])

prop("D03", "Every listed document resolves to its own file and no other",
     "Every identifier obtained by listing a base directory resolves, while its file exists, to a document carrying that same identifier and exactly the current bytes of the file it was listed for; distinct identifiers resolve to distinct files. An identifier with no such file resolves to nothing, without failing.",
     ["inputs", "histories"], "every directory tree and extension, every listed or unlisted relative identifier, and every change to the files between listing and access",
     "plotline-cli has no tests at all.",
     ["plotline-cli/src/repository.rs", "plotline-cli/src/document.rs", "plotline/src/document/lazy.rs"],
     [("LocalDocumentRepository::find_by_id", "plotline-cli/src/repository.rs"), ("Identify for Document", "plotline-cli/src/document.rs"), ("LazyDocument::try_deref", "plotline/src/document/lazy.rs")],
     [],
     ["find_by_id results", "content of the lazy documents yielded by all()"])

prop("C01", "The command line reports exactly the documents and what became of a command",
     "Listing prints the identifier of every document under the base directory, one quoted identifier per line in ascending path order, and nothing else, and succeeds. Deleting succeeds exactly when the identifier is one of those documents, saving any identifier succeeds, and a delete or save without an identifier fails. Every command line is either carried out or rejected with a failure status and a message on the error stream, never a crash, and listing or a rejected command leaves every file as it was.",
     ["inputs", "configurations"], "every directory tree, base directory spelling, extension and command line (identifiers given as text that is no option or subcommand name)",
     "plotline-cli has no tests at all; the binary is only built.",
     ["plotline-cli/src/main.rs", "plotline-cli/src/document.rs", "plotline-cli/src/repository.rs", "plotline-cli/src/lib.rs"],
     [("main", "plotline-cli/src/main.rs"), ("DocumentCli::execute", "plotline-cli/src/document.rs")],
     [],
     ["exit status, standard output and standard error of the binary", "content of the directory afterwards"])

prop("C02", "Document commands act on their schema as single operations",
     "A save command saves, as one save operation with its hooks, a document of the given identifier and exactly the given content (empty if none is given), which the schema then holds whatever the repository has under that name; a delete command removes the document as one delete operation with its hooks. A command succeeds exactly when its operation does and otherwise reports that operation's error, leaving the schema as it was; one without an identifier is rejected before any hook runs. Every document not concerned keeps its identity and content.",
     ["histories", "inputs"], "every schema of documents, set of hooks and sequence of save and delete commands with any identifier and content given as text",
     "plotline-cli has no tests at all, and the program forgets its schema when it ends, so that running it shows little of this.",
     ["plotline-cli/src/document.rs", "plotline-cli/src/lib.rs", "plotline/src/document/lazy.rs", "plotline/src/schema/ops/save.rs", "plotline/src/schema/ops/delete.rs"],
     [("DocumentCli::execute", "plotline-cli/src/document.rs"), ("LazyDocument::new", "plotline/src/document/lazy.rs")],
     [("schema", "documents the commands act on", "DocumentCli in plotline-cli/src/document.rs")],
     ["result of DocumentCli::execute", "what hooks observe", "documents in the schema afterwards"])

prop("I01", "Interval queries find exactly the overlapping intervals",
     "For intervals whose low bound does not exceed their high bound, inserted into the search tree in any order and with any duplicates, the overlap test answers yes exactly when some inserted interval shares at least one point with the query (end points included). Enumerating the overlaps calls back once for each inserted interval that does, and for no other.",
     ["inputs", "histories"], "every multiset of intervals in every insertion order, every bound type and every query",
     "The plugin is outside the workspace, so its two table-driven unit tests do not run; they cover trees of at most five intervals.",
     ["plugins/interval/src/tree.rs", "plugins/interval/src/node.rs", "plugins/interval/src/lib.rs"],
     [("insert, intersects, for_each_intersection", "plugins/interval/src/node.rs"), ("IntervalExt::{contains,intersects}", "plugins/interval/src/lib.rs")],
     [("max", "highest high bound in the subtree", "plugins/interval/src/node.rs")],
     ["IntervalSearchTree::{intersects,for_each_intersection}"])

prop("I02", "Deleting an interval removes it and only it, and always completes",
     "After any history of insertions and deletions, deleting an interval always completes and removes exactly one stored interval equal to it (none if there is none), also when others share its bounds. Both overlap queries remain exact over what is left after every step.",
     ["histories"], "every sequence of insertions, deletions (present, absent, duplicate, shared low bound, inner and outer tree positions) and queries",
     "No existing test deletes an interval.",
     ["plugins/interval/src/node.rs", "plugins/interval/src/tree.rs"],
     [("delete, join, into_inorder", "plugins/interval/src/node.rs"), ("IntervalSearchTree::delete", "plugins/interval/src/tree.rs")],
     [("max", "highest high bound in the subtree", "plugins/interval/src/node.rs")],
     ["IntervalSearchTree::{delete,intersects,for_each_intersection}"])

prop("I03", "Dates are totally ordered from their most significant component",
     "Dates of any number and type of components compare by their components from the most significant to the least, the first component being the most significant in big-endian dates and the last in little-endian ones. Comparison is a total order under which two dates are equal exactly when all their components are, and a date used as an interval spans exactly itself.",
     ["inputs"], "every pair and triple of dates of any length and component type in either encoding",
     "No existing test touches dates, and the plugin is not built by the workspace.",
     ["plugins/interval/src/date.rs", "plugins/interval/src/lib.rs"],
     [("Ord/PartialOrd/PartialEq/Interval for Date", "plugins/interval/src/date.rs")],
     [],
     ["comparison operators", "lo / hi, and membership in a search tree of dates"],
     hook="a constructor for dates: their components are private and the crate offers none")

prop("I04", "The interval index follows the schema it is installed in",
     "With the interval plugin installed, the intervals found by the index are exactly those of the nodes currently stored in the schema.",
     ["histories"], "every history of saves and deletes on a schema with the plugin installed",
     "The plugin is not built by the workspace and has no such test.",
     ["plugins/interval/src/plugin.rs"],
     [("IntervalPlugin::{on_save,on_delete,install}", "plugins/interval/src/plugin.rs")],
     [],
     ["none: see MANIFEST.json not_applicable"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
