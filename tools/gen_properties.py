"""Writes properties.jsonl (kept as a script only because long JSON lines are unpleasant to edit)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


V, S, N = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py"

prop("C01", "The tree is exactly what the operations asked for",
     "For every sequence of write, append, touch, mkdir, remove, move and copy operations, the tree seen through reads, "
     "existence tests, listings, walks and tree renderings is exactly the one a plain hierarchical map of names would hold "
     "after the same operations, and an operation that cannot apply (missing source, name already taken, non-empty "
     "directory, directory into itself, file used as a directory) is refused with a sandbox error. Every listed path "
     "resolves to the listed node, and no operation loses, duplicates, relabels or relocates a file, directory, policy or "
     "metadata entry it was not asked to touch.",
     ["histories", "inputs"],
     "all operation sequences over all names, contents, depths and current directories, with dynamic and static nodes mixed",
     "Tests sample about twenty fixed three-step scenarios; name collisions at the destination, moves of populated trees, "
     "copies over existing files and long histories are never reached.",
     [V, N], [("mkdir/write/remove/move/copy", V), ("parent pointer + children dict", N)],
     ["ls", "walk", "tree", "iter_files", "read_file", "exists", "is_dir", "is_file", "get_node"],
     [("root", "the directory tree", V), ("children", "name to node per directory", N)])

prop("C02", "Path spellings resolve lexically and never leave the root",
     "Every path, absolute or relative, with any mix of '.', '..', repeated and trailing slashes, given as text or as a path "
     "object, names in every operation and shell command the node that lexical resolution against the current directory "
     "gives, and no number of '..' climbs above the sandbox root. The current directory changes only through a successful "
     "change of directory or a restore, and follows the directory when it is moved.",
     ["inputs", "histories"],
     "all spellings of all paths, all current directories, all operations taking a path",
     "Tests use clean absolute paths almost exclusively; one relative './workspace' is the only other spelling.",
     [V, S], [("path normalisation", V), ("cwd", V)], ["pwd", "cd", "every path-taking call"],
     [("cwd", "current directory node", V)])

prop("C03", "A refused operation changes nothing",
     "A filesystem operation that reports an error (missing path, name clash, policy, version mismatch, failing provider, "
     "failing or conflicting storage) leaves everything observable as it was before the call: tree, contents, versions, "
     "timestamps, policies, search results, backing storage and event streams. The only exceptions are an error raised by a "
     "registered hook, and a recursive removal, which may stop part way but removes nothing protected.",
     ["histories", "fault_sequences", "inputs"],
     "all operation sequences and all points at which a policy, version, provider or storage failure can strike",
     "Tests assert that an error is raised, never what the state is afterwards, and inject no storage or provider failure.",
     [V, N, "sandfs/adapters.py"], [("checks before mutation", V), ("rollback on storage failure", V)],
     ["full state digest before and after each failing call"],
     [("_storage_mounts", "path to adapter", V)])

prop("C04", "Versions count writes and guard expected-version writes",
     "Every successful write or append (and every copy onto an existing file) raises the target file's version by exactly "
     "one, and outside storage mounts nothing else (reads, listings, touches, moves, refused writes, changes elsewhere) "
     "alters it. A write or append carrying an expected version takes effect exactly when that version is the file's current "
     "one (zero for a file that does not exist), and otherwise is refused and changes nothing.",
     ["histories", "inputs", "schedules"],
     "all histories of interleaved optimistic writers on the same files",
     "One test performs two writes and one stale write; interleavings of several writers, appends, copies, moves and "
     "recreated files are not sampled.",
     [V, N], [("version check and increment", V)], ["get_version", "WriteEvent.version", "stat"],
     [("version", "per-file counter", N)])

prop("C05", "Read-only and append-only nodes are never altered",
     "While a file's policy is read-only, no write, append, touch, remove, move, copy or built-in shell command changes, "
     "truncates, renames, replaces or deletes it, and while it is append-only its content only ever grows by appended text "
     "and it is neither removed, renamed nor replaced; moving a writable ancestor directory as a whole relocates it "
     "unchanged. While a directory is read-only, no such operation creates, removes or renames an entry directly in it or "
     "creates missing directories below it. Operations on nodes without such a policy are not refused on policy grounds.",
     ["histories", "inputs", "configurations"],
     "all policy assignments, all operation sequences, direct and recursive, API and shell",
     "Tests cover one overwrite of one read-only and one append-only file.",
     [V, S, "sandfs/policies.py"], [("write permission check", V)], ["contents and listings of protected nodes after every step"],
     [("policy", "per-node access policy", N)])

prop("C06", "Unreadable content is never returned",
     "While a file's policy makes it unreadable, no read, search or built-in shell command (cat, head, tail, wc, grep, rg, "
     "search, redirection, copies, the search view; with or without a full-text index) returns any of its content, and "
     "while a directory is unreadable, ls, cd, tree, find, grep, rg and search naming it are refused. Making the "
     "node readable again makes the same calls succeed with the same content.",
     ["histories", "inputs", "configurations"],
     "all policy toggles over time, all commands and flags, index on or off",
     "One test lists one unreadable directory; no test reads, greps or searches an unreadable file.",
     [V, S, "sandfs/search.py"], [("read permission check", V)], ["outputs of every read and search path scanned for marker tokens"],
     [("policy.readable", "read permission", "sandfs/policies.py")])

prop("C07", "A restricted shell never reveals or alters hidden nodes",
     "For a shell with a visibility view, a node is hidden when the view's classifications, principals or path prefixes "
     "exclude it, when its classification or principals exclude a directory above it, or, for a file, when its metadata "
     "misses the view's filters (a directory missing them is only left out of listings). No built-in "
     "command other than the python and host bridges (python, python3, host, bash, sh) outputs the content or lists the name "
     "of a hidden node, however it is reached (globs, redirection, pipelines, relative paths, search, search view, copies "
     "made through the shell), and none changes, moves or deletes a hidden node or creates entries inside a hidden directory.",
     ["histories", "inputs", "configurations"],
     "all views, policy and metadata assignments, trees and command lines, several shells over one filesystem",
     "Tests hide single files from ls and cat; globs, searches, search views, hidden ancestors, redirection and recursive "
     "commands over partly hidden trees are not sampled.",
     [S, V, "sandfs/policies.py"], [("view filter", "sandfs/policies.py"), ("visible-path check", S)],
     ["CommandResult.stdout/stderr scanned for tokens planted in hidden names and contents", "state of hidden nodes after each command"],
     [("view", "what the shell may see", S)])

prop("C08", "A restricted shell sees everything its view allows",
     "Under any visibility view, listing, tree, find, glob expansion, grep, rg and search output exactly the entries and "
     "matching lines an unrestricted shell would output minus those belonging to hidden nodes (tree and find descending "
     "only into directories they list), and reading, counting and "
     "stat of a visible readable file give the same result as for an unrestricted shell. A node without principals is "
     "allowed by its classification, a node with principals by sharing at least one principal with the view.",
     ["histories", "inputs", "configurations"],
     "all combinations of classifications, principals, path prefixes and metadata filters over all trees",
     "Tests check four fixed views on two-file trees.",
     [S, V, "sandfs/policies.py"], [("view filter", "sandfs/policies.py")], ["ls", "tree", "find", "glob", "grep", "rg", "search", "cat", "stat", "wc"])

prop("C09", "Hooks see every change exactly once, in order",
     "Each successful write, append, file copy and file removal (each file of a recursive one) delivers, to every hook whose "
     "prefix is the file's path or an ancestor of it component by component, exactly one event, in operation order, with the "
     "file's path, and for writes the full content and version after the write and whether it was an append; a moved file "
     "is a removal at the old path and a creation at the new one. Path events say create for a write where no file existed, "
     "update for a write to a previously written file and delete for a removal; reads, listings, refused operations, touches "
     "and changes outside the prefix deliver nothing.",
     ["histories", "inputs"],
     "all operation sequences, all hook prefixes, including sibling names sharing a textual prefix and changes made through the shell",
     "Two tests check one hook on one file with a three-step history.",
     [V, "sandfs/hooks.py", "sandfs/integrations.py"], [("event emission and prefix match", V)], ["recorded WriteEvent and PathEvent log"],
     [("_write_hooks/_path_hooks", "registered prefixes", V)])

prop("C10", "Storage mounts mirror the adapter",
     "After every successful operation on a tree with storage mounts (write, append, copy, move into, out of or between "
     "mounts, remove, sync), each adapter holds exactly the files loaded, written, copied or moved below its mount point (a "
     "touched file is stored once written), with the same paths, contents and versions, a path under nested mounts belonging to the innermost one only. Mounting shows exactly the adapter's "
     "entries, syncing makes the mount show exactly the adapter's current entries while keeping the policies and metadata of "
     "surviving nodes and leaving everything outside the mount untouched.",
     ["histories", "configurations"],
     "all operation sequences over any arrangement of disjoint and nested mounts with memory and directory adapters",
     "Tests write and delete one file under one mount; moves, copies, nested mounts and policies across sync are not sampled.",
     [V, "sandfs/adapters.py"], [("persist on write, delete on remove, reload on sync", V)], ["adapter.list() against the tree after every step"],
     [("_storage_mounts", "path to adapter", V)])

prop("C11", "External changes to storage are never silently overwritten",
     "When the content of an entry the sandbox has loaded or written is changed behind its back in the adapter (through "
     "the memory adapter, or on disk with a new modification time for the directory adapter), the next sandbox write to it "
     "is refused, both sides keep their content and version, and the file becomes writable again "
     "after a sync that shows the external content. Directly on an adapter, a write to an existing entry succeeds exactly when the given version "
     "is the entry's current one, returns a version one higher, and read and list report the stored content and version.",
     ["histories", "schedules"],
     "all interleavings of sandbox writes, external changes, syncs and deletions over several entries",
     "One test performs one external change on the memory adapter and never looks at the state after the refusal; the "
     "directory adapter's change detection through a mount is not tested.",
     ["sandfs/adapters.py", V], [("version comparison", "sandfs/adapters.py"), ("conflict rollback", V)],
     ["adapter.read/list and sandbox reads after each interleaving"],
     [("_versions/_mtimes", "directory adapter's view of versions", "sandfs/adapters.py")])

prop("C12", "A directory adapter stays inside its root and is faithful",
     "A directory-backed adapter never reads, lists, writes, creates or deletes anything outside its root directory, "
     "whatever path text it is given (dot-dot, absolute, repeated slashes) and whatever symbolic links lie below the root; "
     "such requests are refused and absolute paths mean paths below the root. Text written through it is read back "
     "character for character, including line endings and non-ASCII text, both directly, from disk, and after a sync.",
     ["inputs", "histories", "configurations"],
     "all path strings, link layouts and text contents",
     "One test tries one '../escape.txt' write; no links, no delete/read escapes, no non-ASCII or CRLF text.",
     ["sandfs/adapters.py"], [("resolve and containment check", "sandfs/adapters.py")],
     ["canary files beside the root, sys.audit open/remove/mkdir events, bytes on disk"])

prop("C13", "Restoring a snapshot brings back exactly that state",
     "For any state and any later history, restoring a snapshot brings back the snapshotted tree: the same paths and kinds, "
     "file contents (dynamic ones as read at snapshot time), policies, metadata, versions, timestamps and current directory, "
     "with search results and an enabled search view to match, and nothing that was created since. A snapshot never changes "
     "once taken: it can be restored any number of times, in any order with other snapshots, whatever is done to the live "
     "tree in between; taking and restoring deliver no hook events and do not touch backing storage.",
     ["histories", "configurations"],
     "all histories before, between and after snapshots and restores, with any policies, mounts and search configuration",
     "Two tests restore one snapshot of two files; policies, nested directories, timestamps, repeated restores and read-only "
     "directories are not sampled.",
     [V], [("snapshot/restore", V)], ["full state digest at snapshot and after restore"],
     [("VFSSnapshot", "captured nodes", V)])

prop("C14", "Indexed search, scanning search and the files agree",
     "For every query (literal or regex, case-sensitive or not, any path prefix) and after every history of writes, appends, "
     "removals, moves, copies, mounts of storage, syncs and restores, searching with the full-text index enabled, searching "
     "without it, and matching the current file contents line by line give the same set of path, line number and line text. "
     "The search, grep and rg commands report the same matches, one per line, whenever the index was enabled.",
     ["histories", "inputs"],
     "all queries, all tree histories, index enabled at any point",
     "Two tests check a handful of literal queries after one move, copy and removal.",
     ["sandfs/search.py", V, S], [("index maintenance", V), ("FullTextIndex", "sandfs/search.py")], ["search()", "search/grep/rg output"],
     [("_full_text_index", "path to indexed content", V)])

prop("C15", "The search view shows the query's results and keeps nothing",
     "A path in the enabled search view shows, for the shell that asks and its view, a tree with exactly the files matching "
     "the query in that path (text, regex, case and path-prefix parameters), each holding the matching lines with path and "
     "line number as currently stored; enabling the view elsewhere moves it. Search view paths, however spelled, cannot be written, and queries leave the rest of the tree and later "
     "queries unaffected: no result of one query is visible afterwards to any other query, command or shell.",
     ["histories", "inputs", "configurations"],
     "all sequences of queries by several shells with different views interleaved with changes to the tree",
     "Three tests run one query each on a one-file tree.",
     [S, V], [("search path parser and context", S), ("search tree builder", V)], ["ls/cat/find/tree/grep on search paths, and the plain tree afterwards"],
     [("search view context", "query being answered", V)])

prop("C16", "Pipelines, redirection, variables and text commands behave as a shell",
     "A command line runs its stages left to right feeding each stage's output to the next, '<' supplies a file as input, '>' "
     "replaces and '>>' extends the target with exactly the stage's output, an operator, wildcard or (in single quotes or "
     "escaped) dollar character in quotes is ordinary text, a variable in double quotes expands without being searched for "
     "wildcards, lines of a multi-line command run in order and stop at the first failure. Variables set on their own line persist, "
     "those prefixed to a command apply to that command only, and echo, printf, cat, head, tail, wc, grep, write and append "
     "produce exactly the text their documented meaning gives for any content and count.",
     ["inputs", "histories", "programs"],
     "all command lines built from these constructs over all file contents",
     "About ten tests run one or two-stage lines on short ASCII content.",
     [S, "sandfs/shell_parser.py"], [("parser", "sandfs/shell_parser.py"), ("pipeline executor", S)], ["CommandResult and files after each line"],
     [("env", "shell variables", S)])

prop("C17", "The shell reports every failure as a result",
     "Executing any command text returns a command result and never raises: syntax errors, unknown commands, missing or "
     "protected paths, bad options, failing providers or storage, failing redirections and globs all give a non-zero exit code and a message on "
     "the error stream, and success gives exit code zero. After any such failure the shell and the tree stay usable and later "
     "commands behave as if the failed one had not been entered, apart from the effects of stages that completed.",
     ["inputs", "fault_sequences", "programs"],
     "all command strings, including malformed ones, over any tree and any failing provider",
     "Tests check a few well-formed failing commands; malformed text, failing redirections and provider faults are not sampled.",
     [S, "sandfs/shell_parser.py"], [("error conversion", S)], ["exec return value or exception for every input"])

prop("C18", "Agent mode: the allow-list and output limit always hold",
     "With an allow-list, no command outside it is ever run or reaches the host, in any position of a pipeline or multi-line "
     "command, through variables, with host fallback on or off, and even when the list is empty; every such attempt gives an "
     "error. With an output limit, no result carries more than that many bytes of combined output and error text other than "
     "the fixed limit-exceeded error itself, and results within the limit are delivered unchanged.",
     ["inputs", "configurations", "programs"],
     "all command lines, allow-lists, limits, encodings of output and fallback settings",
     "Two tests check one blocked command and one oversized ASCII output.",
     [S], [("allow-list check", S), ("output limit", S)], ["handlers invoked (spies on registered commands), process spawn audit events, result sizes"],
     [("allowed_commands", "permitted names", S), ("max_output_bytes", "limit", S)])

prop("C19", "Ordinary use never touches the host",
     "Apart from the host bridge (host, bash, sh, host fallback), export, materialize and directory-backed storage, no "
     "filesystem operation, search, snapshot, Python snippet restricted to the provided names, or built-in command opens, "
     "creates, modifies or deletes a host file, changes the process's working directory or environment, or starts a process "
     "or network connection. With host fallback off, unknown commands and unsupported flags never reach the host.",
     ["inputs", "programs", "histories"],
     "all operations and command lines that do not name the documented bridges",
     "No test observes host effects; they only look at results.",
     [V, S, "sandfs/pyexec.py"], [("in-memory implementation", V), ("fallback guard", S)], ["sys.audit events, cwd, os.environ, canary directory"])

prop("C20", "Export and host commands mirror the tree both ways",
     "Exporting or materializing writes exactly the sandbox subtree (names, directories, text character for character) "
     "inside the target directory and nothing outside it, and a materialized directory is gone afterwards even on errors. "
     "A host command runs in the materialized sandbox directory asked for, with the sandbox's variables over the host's, absolute "
     "sandbox paths in its words naming the sandbox's files and other words left as they are; it is given its input and "
     "returns its output text and exit code unchanged; afterwards the sandbox "
     "holds exactly the files and directories the command left: its creations, changes and deletions appear, and "
     "nodes it did not change keep content, version and policy and deliver no events, also in trees with protected or "
     "unreadable nodes.",
     ["histories", "inputs", "programs"],
     "all trees (including line endings, unicode, deep and empty directories, protected nodes) and all file-editing scripts",
     "About ten tests run one host command on a two-file ASCII tree.",
     [V, S], [("export", V), ("host run and sync back", S)], ["bytes on disk in the exported tree, state digest after each host command, temp directory"])

prop("C21", "Python snippets get only the curated environment",
     "A snippet reaches exactly the curated builtins, configured additions and sandbox handles: importing modules or "
     "using open, eval, exec, compile, globals, getattr or other absent builtins fails without effect. Each run "
     "starts from the same environment whatever earlier runs assigned, deleted or replaced, its printed text is returned "
     "rather than printed, the process's output stream is restored even if it fails, and changes it makes through the "
     "sandbox handle are exactly those of calling it directly.",
     ["programs", "histories"],
     "all snippets, all run sequences",
     "Two tests evaluate one expression each.",
     ["sandfs/pyexec.py", S], [("restricted builtins, fresh globals, redirected stdout", "sandfs/pyexec.py")], ["sys.audit events, result globals and stdout, sys.stdout identity"])

prop("C22", "Dynamic nodes are consulted on demand and degrade safely",
     "A content provider is called on each read, with the node's current path and metadata and this sandbox, and its text is "
     "returned unchanged; a directory provider is called on first use only, its entries then behave like ordinary nodes at "
     "any depth with their declared contents, policies and metadata, and existing entries win over provided ones. A failing "
     "provider raises a sandbox error, alters nothing and is retried on the next use; a write replaces dynamic content "
     "and an append extends what a read would have returned; provided names that are not plain names are refused. "
     "A provider may itself use the sandbox: no call or command fails, or misses a node that was there throughout, because of it.",
     ["histories", "fault_sequences", "inputs"],
     "all provider shapes, call orders, failures at any call, and mixes with writes, moves, copies and snapshots",
     "Two tests mount one well-behaved file and one directory provider.",
     [N, V, "sandfs/providers.py"], [("lazy loading", N), ("provider read", N)], ["provider call log against reads"],
     [("_loaded", "directory provider consulted", N), ("_provider", "content provider", N)])

prop("C23", "Sandboxes, copies and snapshots never share state",
     "Operations on one sandbox or shell never change what another sandbox, or another shell's variables and settings, "
     "observes. A copied file or tree starts with the same content, policy and metadata but is independent of its source in "
     "both directions (metadata values being opaque), as are snapshots, storage entries handed out by adapters, and the values passed in by or returned to callers when building shells, views and adapters.",
     ["histories", "configurations"],
     "all interleavings of operations over several sandboxes, shells, copies and snapshots",
     "Tests build one sandbox each and never compare two.",
     [V, N, S, "sandfs/adapters.py", "sandfs/policies.py"], [("per-instance state, cloning", V)], ["digests of all other sandboxes after each operation"])

prop("C24", "The command line runs the same sandbox",
     "The exec subcommand prints exactly the output and error text and exits with the code that the same command gives in a "
     "shell over the same mounts, and the interactive subcommand does so line by line until quit or end of input, surviving "
     "failing commands. Each mount option maps exactly that host directory: files appear at the sandbox path, sandbox writes "
     "and removals land in that directory and nowhere else, and host fallback and search exist only when asked for.",
     ["inputs", "configurations", "programs"],
     "all option combinations, command strings and mounted trees",
     "Two tests run 'echo' once each.",
     ["sandfs/cli.py", S, V], [("argument handling", "sandfs/cli.py")], ["captured stdout/stderr, exit code, mounted directory on disk"])

prop("C25", "Custom commands are full citizens of the shell",
     "A command registered on a shell runs wherever a built-in can, under its name only and in that shell only, and receives "
     "exactly its arguments after quoting, variable and glob expansion and, when it takes a second parameter, a context holding "
     "its input, the variables in force for it (persistent ones overridden by its own prefixes), the current directory, the "
     "sandbox and the shell's view; what it does to the values handed to it affects nothing else. Text it returns, or the "
     "output, error text and exit code of a result it returns, are what is piped, redirected and delivered; returning nothing "
     "is empty success, and an exception it raises becomes a failing result carrying the message. The list of commands and the "
     "help text show exactly the registered names with their descriptions.",
     ["inputs", "histories"],
     "all command shapes and behaviours, all positions in pipelines, redirections and lines, several shells of one sandbox",
     "Two tests register one trivial command each; contexts, prefixes, redirection, errors and isolation between shells are "
     "never checked.",
     [S], [("register_command and dispatch", S), ("CommandContext", S)],
     ["calls recorded by the registered commands", "command results", "available_commands", "help"],
     [("commands", "name to handler per shell", S)])

prop("C26", "A hook runs when its change is complete",
     "When a write or path hook is called, the change it announces is complete: reading the path gives the announced content "
     "and version, backing storage and searches already show it, and a removed path is gone from all of them. A hook may itself "
     "use the sandbox (reading, searching, taking snapshots, running commands, writing other files): the operation that "
     "triggered it ends exactly as it would have without the hook, and the hook's own changes are announced in turn, once each. "
     "Changes a hook makes to the announced file or its neighbours count as made right after the operation, each announced as it "
     "was made, and what it puts into a directory being removed recursively is never dropped unannounced or left in storage. "
     "An error raised by a hook reaches the caller, as a failing result in the shell, and the announced change stays in place, "
     "complete in tree, storage and search.",
     ["histories", "fault_sequences"],
     "all operation histories with storage mounts and indexes, all hook placements and reactions, an error raised at any event",
     "Tests only append events to a list; no test looks at the sandbox from inside a hook or lets one fail.",
     [V, "sandfs/hooks.py", "sandfs/integrations.py"], [("event delivery after mutation, persistence and indexing", V)],
     ["state read inside the hook", "twin without hooks"],
     [("_write_hooks", "prefix and callback list", V), ("_path_hooks", "prefix and callback list", V)])

prop("C27", "Times tell when a node was made and last changed",
     "A node's creation time is the moment it came into being and a file's modification time the moment of its last successful "
     "write, append or touch; a copy that makes a new node starts with the time of copying, a move carries both times along "
     "with the whole subtree, and a restore brings back the recorded ones. Reads, listings, searches, commands that only look, "
     "snapshots, policy and metadata changes, refused operations and changes to other nodes never alter a node's times, and "
     "stat shows the node's times, size in characters and version.",
     ["histories", "inputs"],
     "all operation histories and all earlier times of the nodes involved",
     "One test looks at the shape of stat's output; no test compares times across operations.",
     [V, N, S], [("created_at and modified_at maintenance", V), ("node construction", N), ("stat", S)],
     ["created_at and modified_at of nodes", "stat output"],
     [("created_at/modified_at", "node times", N)])

prop("C28", "Patterns name exactly the matching nodes",
     "A word or glob pattern without a slash expands to the entries of the current (or given) directory whose names match, one "
     "with a slash to the nodes whose whole path matches after '.', '..', repeated slashes and a relative beginning are "
     "resolved against that directory, and find -name/-type prints the nodes below its starting points whose name and kind "
     "match: each visible matching node once (per word or starting point) as its absolute path, no other, including nodes behind directory providers nobody "
     "has looked at yet. Only unquoted '*', '?' and '[...]' of the pattern are wildcards: those in quotes, in the name of the "
     "current directory or in file names stand for themselves, every other character matches only itself (case included), and "
     "a word that matches nothing is passed on unchanged.",
     ["inputs", "histories"],
     "all patterns, all names (wildcard characters, dots and spaces included), all current directories, views and trees",
     "Two tests expand one '*.txt' each; quoting, names with wildcard characters, relative and nested patterns are never tried.",
     [V, S, "sandfs/shell_parser.py"], [("glob", V), ("word expansion", S), ("find", S), ("quoting", "sandfs/shell_parser.py")],
     ["arguments commands receive", "vfs.glob results", "find output"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
