"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fa.registry import REGISTRY  # noqa: E402

OPS = ["src/fora/operations/files.py", "src/fora/operations/system.py", "src/fora/operations/systemd.py", "src/fora/operations/git.py",
       "src/fora/operations/apt.py", "src/fora/operations/pacman.py", "src/fora/operations/portage.py", "src/fora/operations/utils.py",
       "src/fora/operations/api.py"]
API = "src/fora/operations/api.py"
FILES = "src/fora/operations/files.py"
UTILS = "src/fora/operations/utils.py"
CONN = "src/fora/connection.py"
CTOR = "src/fora/connectors/connector.py"
TUN = "src/fora/connectors/tunnel_connector.py"
DISP = "src/fora/connectors/tunnel_dispatcher.py"
TYPES = "src/fora/types.py"
INV = "src/fora/inventory_wrapper.py"
LOAD = "src/fora/loader.py"
MAIN = "src/fora/main.py"
UT = "src/fora/utils.py"

P = []


def p(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


p("C01", "A dry run never modifies the remote system",
  "When the dry-run flag is given, no operation issues a remote action that can modify the target: nothing is uploaded and only probing commands are run. "
  "This holds for every combination of parameters and every remote state.",
  ["inputs", "configurations", "histories"], "every operation, every parameter combination, every observed remote state",
  "The tests run operations for real and exercise dry mode on a few states; one unguarded command on one branch is enough to break production.",
  OPS, [{"name": "guard on the dry flag before each mutation", "where": "each operation body and operations/utils.py save_content"}],
  "path-sensitive abstract interpretation with effect classification of every remote command",
  "Every path of every operation is enumerated over symbolic parameters and remote answers; a command counts as probing only if its argv is on the read-only table.")

p("C02", "Reported change equals performed change, in real and dry runs",
  "An operation that returns success reports 'changed' exactly if it issued at least one modifying action in a real run. "
  "A dry run in the same situation reports the same value.",
  ["inputs", "histories"], "every operation, parameters, observed states; dry and real run of the same decisions",
  "Tests compare a handful of states; the report is derived from state dictionaries assembled separately from the actions.",
  OPS, [{"name": "initial/final state comparison", "where": "operations/api.py Operation.unchanged/changed/success"}],
  "path-sensitive abstract interpretation; pairing of dry and real paths by common decisions",
  "Modelled remote: state changes only through commands issued by the operation. Explicit touch requests count as a modification.")

p("C03", "File operations leave exactly the requested node",
  "After a file, directory, link, upload or template operation succeeds in a real run, the node exists (or not) as requested with the requested content or link target, "
  "and with the requested mode, owner and group, whatever was there before. Later steps of the operation never undo earlier ones. Removing a directory removes its contents; uploading a directory creates all its directories and regular files below the destination; "
  "a destination with a trailing slash is the directory in which the node is placed under the name of the source.",
  ["inputs", "histories"], "every prior state of the node, every parameter combination, every resolved default",
  "Tests start from a few prior states as root; interplay of chown and mode bits or of links to directories needs specific prior states.",
  [FILES, UTILS], [{"name": "mutation sequence of each operation", "where": "operations/files.py, operations/utils.py save_content"}],
  "abstract interpretation with a symbolic file-node transfer function over the command sequence of each path",
  "Decides the final node state computed from the issued commands under their documented semantics (chmod, chown, ln -n, touch, upload).")

p("C04", "Account, package, service and repository operations reach the request",
  "After a user, group, package, service or git operation succeeds in a real run, every explicitly requested attribute (also a uid or gid of zero, an empty comment or list of groups) is established on exactly the named object, "
  "and attributes that were not requested keep their value. Options given for an installation or clone are passed on exactly if they were given, the content of a home directory is never touched, and a repository with another origin is not modified. "
  "The generic package and service operations apply exactly the request with the operation of the manager that exists on the remote system, and fail without modifying anything if there is none.",
  ["inputs", "histories"], "every observed state of the object and every parameter combination, including falsy values",
  "The tests need root, real package managers and systemd, so most of these branches are never executed by the suite.",
  OPS[1:7], [{"name": "probe, compare, act", "where": "operations/system.py, systemd.py, git.py, apt.py, pacman.py, portage.py"}],
  "abstract interpretation; per-attribute obligation: requested value is observed equal or set by a command argument",
  "Semantics of usermod, groupadd, systemctl, git, apt-get, pacman and emerge options are tabulated, not verified.")

p("C05", "Nodes of a foreign kind are never replaced or removed",
  "A file-system operation acts destructively on a path only after it inspected that very path and found nothing or a node of the kind the operation manages. "
  "When something of another kind is there, the operation does not report success.",
  ["inputs", "histories"], "every node kind that may exist at the path",
  "Tests try one or two foreign kinds; the guard must precede the mutation on every path.",
  [FILES, UTILS], [{"name": "type check after stat", "where": "operations/files.py, operations/utils.py"}],
  "path-sensitive typestate: stat of the path with kind check precedes each mutation",
  "The remote node is assumed not to change between inspection and action.")

p("C06", "Relative remote paths are rejected before anything happens",
  "Every operation that takes a remote path refuses an empty or relative path with an error before it contacts the remote system, and accepts absolute ones.",
  ["inputs"], "every operation with a remote path parameter, every path string",
  "Tests pass one relative path to some operations.",
  [FILES, UTILS, "src/fora/operations/git.py"], [{"name": "path validation", "where": "operations/utils.py check_absolute_path"}],
  "abstract interpretation with prefix facts on the path string",
  "Path strings are partitioned into empty, absolute and relative.")

p("C07", "Parameters reach commands as data",
  "Remote commands are argument vectors whose program is fixed; user-supplied strings are never interpreted by a shell and never parsed as an option of the command.",
  ["inputs"], "every operation and every parameter value, including ones with shell metacharacters or leading dashes",
  "Tests use benign names; injection needs hostile values at one particular argument position.",
  OPS, [{"name": "argv construction with '--' separators", "where": "all operations"}],
  "value-provenance (taint) analysis of every argv element on every path",
  "Option syntax of the tools used is tabulated (which options take a value, which tools honour '--').")

p("C08", "A failing remote command is never reported as success",
  "If a remote command that an operation relies on fails, the operation does not return success, and issues no further modifying action; every modifying command is run with failure checking, also one of a nested operation.",
  ["fault_sequences", "inputs"], "a failure of each remote command at each point of each operation",
  "Tests hardly inject failures; each call site needs its own.",
  OPS, [{"name": "check=True on commands, exceptions propagated by the operation decorator", "where": "operations/*.py, connection.py"}],
  "fault-point enumeration on the abstract interpreter's paths",
  "Single fault per path; the failure is modelled as the documented exception of a checked command.")

p("C09", "Line editing keeps every other line",
  "Adding or removing a line changes exactly that line: all other lines are kept in order and re-encoded losslessly (lines end at newlines only; other separators are content), the file's mode and ownership are kept, "
  "and a requested backup is taken under an extended name before the file is overwritten.",
  ["inputs", "histories"], "every small file shape, presence of the line, option combination",
  "Tests cover a few contents; losing unrelated lines or metadata needs particular combinations.",
  [FILES], [{"name": "decode, filter, join, save", "where": "operations/files.py line"}],
  "abstract interpretation over symbolic lines with bounded file shapes",
  "Files of up to a few symbolic lines; the user's custom regex is opaque. Longer files are covered only by the uniformity of the loop.")


p("C10", "Every operation call ends in exactly one accountable outcome",
  "Calling an operation while a host is active runs its body exactly once with the caller's arguments and either returns its result or raises. A failed result raises OperationError with the failure message unless check=False was given, "
  "in which case it is returned as failed; an operation that produces no result is an error, and errors raised inside never become a success: they propagate unchanged. Without an active host no operation body is entered. "
  "A result is successful only after both the initial and the final state were declared, reports a change exactly if they differ, and is reported exactly once.",
  ["inputs", "fault_sequences"], "every body outcome: success, failure, operation error, other exception, no result; every order of declaring states; nested results",
  "Tests observe successful calls; the failure, check=False and nested combinations are not sampled.",
  [API], [{"name": "operation decorator and operation object", "where": "operations/api.py operation, Operation"}],
  "abstract interpretation of the decorator over every outcome of an opaque operation body",
  "The operation body is replaced by each possible outcome; logging is observed as events.")

p("C12", "Settings overlay field by field, call over scope over connector",
  "The effective mode, owner, user, umask, working directory and other settings of an action are, field by field, the explicitly given value, else the innermost enclosing defaults, else the connector's. "
  "A falsy value that was given counts as given, and overlaying never alters the settings it is based on.",
  ["inputs", "configurations"], "every subset of fields set at each level, including falsy values",
  "Tests set one or two fields at one or two levels.",
  [TYPES, CONN, "src/fora/types.py"], [{"name": "RemoteSettings overlay", "where": "types.py RemoteSettings.overlay, ScriptWrapper.defaults; connection.py"}],
  "abstract interpretation over a field-wise case split, with heap-effect check of the base settings",
  "Values are symbolic; each field is split in unset, set, and falsy.")

p("C13", "Scoped state is restored on every exit",
  "Defaults set for a block, the active script, the script stack, the working directory and the log indentation are back to their previous values when the block or script ends, normally or by any exception "
  "(also one raised while entering it), and the exception reaches the caller unchanged.",
  ["fault_sequences", "histories"], "every exit kind at every nesting of defaults and script calls",
  "Tests leave scopes normally; leaking after an exception influences later, unrelated operations.",
  [TYPES, LOAD, "src/fora/logger.py"], [{"name": "context managers and run_script", "where": "types.py ScriptWrapper.defaults, loader.py run_script, logger.py indent"}],
  "typestate analysis over all exits, comparing global state before and after on each path",
  "Exceptions are injected in the block body and in each callee that can fail.")

p("C15", "Packets survive the wire",
  "Every packet the two ends exchange decodes to the value that was encoded: every field, in order, for every value the operating system can produce (names that are not valid UTF-8, times before 1970, sizes above 4 GiB, absent optionals). "
  "The encoding does not depend on the machine's byte order or word size, and each packet is flushed completely.",
  ["inputs", "configurations"], "every packet type, every field value class",
  "Tests exchange ordinary values between equal machines.",
  [DISP], [{"name": "Packet decorator with serializers", "where": "connectors/tunnel_dispatcher.py _serialize, _deserialize, Packet"}],
  "abstract interpretation of writer composed with reader over symbolic byte segments; format table check",
  "Integers are checked by range of the struct format against the range of the field's source; strings by the error handler used.")

p("C18", "A broken packet stream is an error, never a wrong value",
  "If the stream ends anywhere inside a packet, or carries an unknown packet id, reading raises an error rather than yielding a shortened value; a packet that cannot be encoded leaves no partial bytes on the wire; "
  "and the remote dispatcher stops at the end of its input.",
  ["crash_points", "inputs"], "every truncation point of every packet type, every field that may fail to encode",
  "Tests have an intact stream.",
  [DISP], [{"name": "length-checked reads, buffered writes", "where": "connectors/tunnel_dispatcher.py Connection, _deserialize, receive_packet"}],
  "abstract interpretation of the decoder with a truncation at every read and of the encoder with a fault at every field",
  "The peer's reads return short data at end of stream, as io.BufferedReader does.")

p("C16", "Every request to the remote dispatcher is answered exactly once",
  "For every request, whatever its parameters and whichever remote system call fails, the dispatcher sends exactly one response before it reads the next request (none for the request to exit), "
  "the response is one the sending connector accepts, and afterwards the dispatcher waits for the next request. The dispatcher needs nothing but the Python standard library on the remote system.",
  ["inputs", "crash_points"], "every request type, every parameter combination, every single failing system call",
  "Tests see the successful handlers and few errors; a missing or additional response desynchronises all later requests.",
  [DISP, TUN], [{"name": "request loop and handlers", "where": "connectors/tunnel_dispatcher.py _main and the handle methods; responses expected in tunnel_connector.py"}],
  "abstract interpretation of the dispatcher loop with single-fault injection at every system call, typestate of the reply protocol",
  "One fault per path, taken from the documented failures of each library call.")

p("C17", "Only packets travel on the packet stream",
  "Commands executed by the dispatcher never read from or write to the packet stream, whatever input, output capture or debugging is requested, the dispatcher prints only to standard error, "
  "and the tunnel process's error output is kept out of the stream.",
  ["inputs", "configurations"], "every request, captured or not, with or without input, debug mode on or off",
  "Only a command that reads its standard input or writes uncaptured output shows it, and then as a hang or an unrelated decoding error.",
  [DISP, TUN], [{"name": "explicit standard streams of every spawned process", "where": "connectors/tunnel_dispatcher.py PacketProcessRun.handle, connectors/tunnel_connector.py TunnelConnector.open"}],
  "abstract interpretation; resource flow of the standard streams into every process creation and print",
  "Every process creation reachable from a handler is checked for inherited streams.")

p("C19", "Remote calls do and return exactly what was asked",
  "Each method of a connection performs its remote action with exactly the given arguments and returns exactly the values of the remote system: the command and its input unchanged and without a shell, exit status and captured output, "
  "the attributes and hash of the examined node (following links only if asked), file contents byte for byte, and account entries with each value in its own field. A nonzero exit status raises CalledProcessError exactly if checking is on.",
  ["inputs", "configurations"], "every method, every argument combination, every node type, every account state",
  "Tests call each method with few arguments; a swapped or dropped field between four layers shows for particular values only.",
  [CONN, TUN, DISP, CTOR], [{"name": "argument and result passing through connection, connector and dispatcher", "where": "connection.py, connectors/tunnel_connector.py, connectors/tunnel_dispatcher.py handlers"}],
  "interprocedural value-provenance dataflow from the public method through the request handler to the system call and back",
  "The packet transport in between is covered by C15.")

p("C20", "Remote identity, permissions and validation are complete",
  "A command requested for a user and group runs with exactly that uid, gid (the user's primary group if none is given) and supplementary groups, the requested umask and working directory; an upload ends with exactly the requested owner, group and mode. "
  "Unknown users or groups, non-octal modes or masks and working directories that are missing or no directories are rejected with ValueError before anything was executed, written or changed. A file created by an upload is never accessible by others before its mode is set.",
  ["inputs", "configurations"], "every combination of user, group, umask, working directory, owner, mode; names, numbers and unknown values",
  "Tests cannot run as several users; leftover groups or a wrong order of dropping privileges goes unnoticed.",
  [DISP], [{"name": "privilege change in the child, ownership and mode of uploads", "where": "connectors/tunnel_dispatcher.py PacketProcessRun.handle, PacketUpload.handle, _resolve_*"}],
  "typestate analysis of the privilege and permission calls on every path, with provenance of their arguments",
  "Account databases are symbolic; names resolve by name first, then by number.")

p("C21", "Absence is reported only for what is absent",
  "stat returns None, download_or and query_user/query_group their default, and the resolve methods ValueError exactly if the file or account does not exist; every other failure is raised with its error number, "
  "and accounts without password or group entry are still found.",
  ["crash_points", "inputs"], "every failing system call, every state of the account databases",
  "Tests have existing and missing objects, but no permission errors, input/output errors or incomplete databases; mistaking an unreadable file for a missing one leads operations to overwrite it.",
  [DISP, TUN, CONN], [{"name": "mapping of failures to absent", "where": "connectors/tunnel_dispatcher.py handlers, connectors/tunnel_connector.py stat, connection.py download_or/query_*"}],
  "abstract interpretation with exceptional outcomes at each lookup, classified by error number",
  "Error numbers ENOENT, EACCES, EIO, ELOOP at each file access.")


p("C14", "Settings are validated on the remote host before they take effect",
  "When a defaults block is entered, the users and groups given for it were found on the remote host, modes and umask are octal, and the working directory exists there and is a directory. "
  "Otherwise the block is not entered, an error is raised, and the previous defaults stay in effect. Valid settings are accepted.",
  ["inputs", "configurations"], "every subset of the settings, every outcome of their validation",
  "Tests use valid settings, and one invalid one at a time at best; an unchecked setting shows only when a later operation acts on it.",
  [TYPES, CONN], [{"name": "activation of defaults", "where": "types.py ScriptWrapper.defaults, connection.py Connection.resolve_defaults"}],
  "abstract interpretation with every validation outcome, provenance of each active setting to its validation",
  "Each single field, all fields, and none are given as symbolic values; the remote answers are symbolic.")

p("C22", "Connections and their processes are released on every way out",
  "A connection is attached to its host while and only while it is open, and its connector is closed on every way out, normal or by error, which is passed on unchanged. If opening a connector fails after its process was started, that process is ended. "
  "Closing asks the dispatcher to exit, closes its input and waits for the process also if the connection is already broken; closing twice, or after a failed open, is harmless.",
  ["crash_points", "fault_sequences"], "every failing step of opening and closing, every error inside of the connection",
  "Tests connect successfully; a leaked process or a stale connection needs a failure at one particular step.",
  [CONN, TUN, "src/fora/connectors/ssh.py", "src/fora/connectors/local.py"], [{"name": "open and close of connectors, context manager of connections", "where": "connection.py Connection.__enter__/__exit__, connectors/tunnel_connector.py open/close"}],
  "typestate analysis of process and connection over all paths with fault injection at each step",
  "Faults: spawning, sending, receiving (five kinds of bad answer), closing the input, resolving the base settings.")


p("C11", "Templates see the right variables and fail on undefined ones",
  "A template is rendered with the variables of the script, overridden by those of the active host, overridden by the given context; 'host' and 'inventory' are always the active ones. Its source is the given text or the whole source file as UTF-8, "
  "nothing is escaped, and what is saved is the rendered text as UTF-8. A template that uses an undefined variable, or can't be rendered, raises an error and nothing is uploaded. "
  "Rendering changes neither the context nor any variable, and doesn't influence later templates.",
  ["inputs", "configurations"], "every combination of script, host and context variables, every rendering outcome, consecutive templates",
  "Tests render one or two templates; precedence, strictness and leaks between templates show only for particular name clashes.",
  [FILES, TYPES], [{"name": "template context and environment", "where": "operations/files.py template, template_content"}],
  "interprocedural dataflow of the rendering context with abstract interpretation of a loaded inventory and script",
  "jinja2 itself is modelled as an opaque renderer which may fail; the environment options are read from the term that constructs it.")

p("C23", "Invalid inventories are rejected before anything is loaded",
  "An inventory with duplicate or nameless hosts, duplicate or undeclared groups, groups that depend on themselves, declarations of a wrong type or with an unknown url schema, or without a list of hosts is rejected with an error before any group or host module is executed, "
  "and doesn't leave an initialised inventory behind. An explicitly given module file that doesn't exist is an error. Valid declarations are accepted in all documented forms.",
  ["inputs"], "each form of declaration for hosts and groups, valid and invalid",
  "The tests have a few invalid inventories; each form of declaration takes its own path.",
  [INV, LOAD], [{"name": "normalisation of declarations", "where": "inventory_wrapper.py InventoryWrapper._preprocess_host_declarations, _preprocess_group_declarations, load"}],
  "abstract interpretation of the inventory loader over an enumeration of declaration forms, with modelled module files",
  "The forms are those of the documentation plus wrong types; values within a form are fixed or symbolic.")

p("C24", "Groups are loaded in dependency order, exactly once per host",
  "For every inventory whose group dependencies are acyclic, each host loads 'all' first, then exactly its own groups, each once and after all groups it directly or transitively depends on (also by way of groups that the host isn't in), then its own module. "
  "The order doesn't depend on the hash order of sets. An inventory with a dependency cycle is rejected before anything is loaded.",
  ["inputs", "schedules"], "every dependency graph up to the bound, every membership, several iteration orders of sets",
  "Tests have a handful of graphs, and a wrong order shows only for particular graphs and hash seeds.",
  [INV, "src/fora/utils.py"], [{"name": "ranking and ordering of groups", "where": "inventory_wrapper.py InventoryWrapper._calculate_topological_order, instanciate_host; utils.py rank_sort"}],
  "abstract interpretation of the loader over all dependency graphs up to a bound with nondeterministic set order",
  "Graphs of up to 3 groups (quick) or 4 groups with up to 5 edges (thorough); larger graphs are not claimed.")

p("C25", "Ambiguous variable definitions are detected",
  "If two groups of a host give the same variable different values and neither depends on the other, loading the inventory fails, even if a further group redefines it. If all of them are ordered by dependency, directly or transitively, the latest value wins. "
  "Extending an object in place is permitted in any order, but replacing an object that an unrelated group extends is ambiguous. A host's own module may redefine everything.",
  ["inputs", "schedules"], "every dependency graph up to the bound, every set of defining and modifying groups, several set orders",
  "Tests define one conflict; missing one makes the value depend on the hash order of group names.",
  [INV, TYPES], [{"name": "history of variable actions", "where": "inventory_wrapper.py InventoryWrapper.instanciate_host, types.py HostWrapper._variable_action_history"}],
  "abstract interpretation of the loader over all small graphs and definition patterns with nondeterministic set order",
  "Up to 3 groups; chains through groups without definition are included.")

p("C26", "A host's variables come from the most specific module and stay with it",
  "The value of a host's variable is that of the last module which defines it in the order inventory, host declaration, 'all', the groups in order, host module; each module sees the values of lower precedence and itself as fora.host or fora.group while it is executed. "
  "What modules define or modify for one host doesn't show in another (objects of the inventory module itself are shared). Private names and imported modules are not passed on. "
  "Variables are attributes of the host, falling back to those of the active script.",
  ["inputs", "histories"], "every subset of defining modules, several hosts loaded in sequence",
  "Tests check a few combinations on one host; leaks between hosts need two hosts and a mutable value.",
  [INV, TYPES, LOAD], [{"name": "instantiation of modules per host", "where": "inventory_wrapper.py InventoryWrapper.load_group, load_host, instanciate_host; types.py ModuleWrapper"}],
  "abstract interpretation with symbolic values; heap-sharing check between hosts",
  "Values are distinct symbols, lists and dicts; modules are modelled by what they define.")

p("C27", "A run visits exactly the selected hosts, one after the other",
  "A run executes the script exactly once on each selected host in order: those given by --hosts without duplicates, by default all of the inventory. While it runs that host is the active one and its connection open; it is closed before the next host is contacted. "
  "An unknown host or invalid inventory ends the run with a nonzero status before any host is contacted; a failing script or connection ends it with that error. The dry-run flags reach the operations unchanged.",
  ["inputs", "fault_sequences"], "every selection of hosts, every failing step on each host",
  "Tests run one script on one host.",
  [MAIN, LOAD, CONN], [{"name": "host loop", "where": "main.py main, main_run"}],
  "abstract interpretation of the entry point with typestate of active host and connection, faults at each step",
  "Up to three hosts; the argument parser is modelled by the options that are declared to it.")

p("C28", "Hosts are contacted by the connector and address of their declaration",
  "A host is contacted by its explicit connector if it has one, else by the connector of its url's schema; a missing url, missing or unknown schema is an error. A url without schema on the command line or in an inventory means ssh; the host's name is the host part without schema, user and port. "
  "The ssh connector runs ssh with the configured options, the url, and a remote command that unpacks and runs the unmodified dispatcher with python3 and standard tools; the local connector runs the dispatcher with python3. Debugging is requested exactly if it is enabled.",
  ["inputs", "configurations"], "every form of url, explicit or implied connector, debugging on or off",
  "Tests use the local connector; other forms of urls or a missing quote show only with a real remote host.",
  [TYPES, "src/fora/connectors/ssh.py", "src/fora/connectors/local.py", TUN, INV], [{"name": "connector registry, url handling, start command", "where": "types.py create_connector, connectors/ssh.py, connectors/local.py"}],
  "abstract interpretation over url forms, structural check of the constructed command line",
  "Urls from a table of documented forms.")

p("C29", "Scripts get exactly their own parameters and don't recurse unasked",
  "A script parameter has the value given for this call, whatever it is, else its declared default; a missing one without default is an error. Each nested call gets exactly the parameters and name of that call. "
  "Running a script that is already running is an error before anything of it is executed, unless recursive=True was given, however its path is spelled; running it again after it ended, also by an error, is fine. "
  "Calling a script while no host is active is an error.",
  ["inputs", "histories"], "given and omitted parameters incl. falsy values, nested, repeated and mutually recursive calls",
  "Tests pass parameters once.",
  ["src/fora/operations/local.py", LOAD, TYPES], [{"name": "parameter classes and the script stack", "where": "types.py ScriptWrapper.Params, loader.py run_script, operations/local.py script"}],
  "abstract interpretation of nested script calls with modelled script files",
  "Call trees of depth up to four from a table of 22 scenarios.")

p("C30", "Initialising a deploy never touches existing files unasked",
  "Initialising a deploy in a directory which isn't empty creates nothing unless the user answered y or yes, and is otherwise ended with a nonzero status. Every layout offered on the command line is known, creates its files only below the current directory "
  "and each directory before its files; an unknown layout creates nothing.",
  ["inputs"], "every layout, empty or not, a table of answers",
  "There are no tests of it.",
  ["src/fora/example_deploys.py", MAIN], [{"name": "confirmation", "where": "example_deploys.py init_deploy_structure"}],
  "abstract interpretation with typestate: confirmation precedes creation",
  "Answers from a table of 13 strings.")

p("C31", "A system already in the requested state is left alone",
  "Running an operation on a system which already is in the requested state, or running it a second time, issues no modifying action, succeeds and reports that nothing changed, in real and dry runs. "
  "The order and duplicates of requested groups or packages don't matter, nor do values which were not requested.",
  ["inputs", "histories"], "each operation, each kind of request, with the matching observed state",
  "Tests repeat some operations as root; accounts, services, packages and repositories are not repeated.",
  OPS, [{"name": "comparison of observed and requested state", "where": "each operation body, operations/utils.py generic_package, save_content"}],
  "abstract interpretation of each operation on a constructed observed state that satisfies the request",
  "About a hundred constructed situations; file attributes are symbolic, lists have up to three entries. touch=True and state='restarted'/'reloaded' request an action by definition.")

p("C32", "What is printed about an operation agrees with its result",
  "The report of an operation names it, its description (which tells what it is applied to) and given name, is marked as dry exactly in a dry run, and shows the failure message of a failed one. Unless --no-changes is given, every changed value is shown with its key, old and new value, unchanged ones only if verbose. "
  "With --diff, and only then, contents are shown: exactly the difference between the previous content (none if there was no file) and the content that is written, all of it, with control characters escaped. "
  "Nothing is colored if colors are disabled, and reporting a result never fails after changes were made.",
  ["inputs", "configurations"], "each operation's results, all kinds of values, all reporting options",
  "Tests never look at the output; an error in it is seen only for particular values, or when it hides what a run did.",
  ["src/fora/logger.py", API, UTILS, FILES], [{"name": "reporting", "where": "logger.py print_operation, diff; operations/api.py Operation.diff"}],
  "abstract interpretation of the reporting functions over symbolic results; provenance of recorded differences",
  "difflib is modelled by a fixed comparison with control characters; long values may be shortened when not verbose.")

p("C33", "Inspecting an inventory shows all of it and contacts nobody",
  "--inspect-inventory loads the inventory, shows each group, host, url, the inventory's variables and each host's variables with their values and the group or host module that defined them, and ends with status zero. It opens no connection and runs no script; an invalid inventory ends it with a nonzero status.",
  ["inputs"], "valid inventories with variables at each level, invalid ones",
  "There are no tests of it.",
  [MAIN, INV, TYPES], [{"name": "inspection", "where": "main.py show_inventory"}],
  "abstract interpretation of the inspection with modelled modules, call-graph reachability of connectors",
  "Two inventories with up to two hosts; the layout of the tables is not checked.")


p("C34", "A freshly initialised deploy fits the package it was generated by",
  "Every file a layout of --init generates is complete and fits the package: Python files are valid, call only existing functions with arguments these accept, use only existing attributes of hosts and connections, refer only to scripts, templates, "
  "host modules and uploaded files that the layout creates, and call each script with exactly the parameters it declares. Inventories define a list of hosts with known schemas.",
  ["inputs"], "every layout and every file of it",
  "There are no tests of the generated files.",
  ["src/fora/example_deploys.py"], [{"name": "generated text", "where": "example_deploys.py, the constants and init_structure_* functions"}],
  "constant propagation of the generated texts, which are then parsed and checked against the signatures of the package",
  "Only constant references are resolved.")

p("C39", "The command line means what it says",
  "An inventory and a script on the command line run that script on that inventory. Every option has its documented effect wherever it is placed, and no other: what isn't asked for is off, "
  "--dry, --dry-run and --pretend all request a dry run, and the options are in effect before anything is loaded. --init, --inspect-inventory, --version and --help do only that. "
  "An invalid command line ends the program with a nonzero status, and nothing is loaded, run or created.",
  ["inputs"], "every combination of documented options and positions, and invalid command lines",
  "Tests call main with one or two command lines; an option that is silently dropped or implied by another one shows only when it is used.",
  [MAIN], [{"name": "parser and dispatch of the command line", "where": "main.py main"}],
  "abstract interpretation of main with the declared parser folded over constant command lines",
  "The declared options are read from the source and applied with argparse's documented semantics to an enumerated set of command lines (each option alone and combined, before and after the positional arguments, invalid ones).")

p("C40", "A failure is shown to the user, once and completely",
  "An error that ends the program is reported on standard error with its message and location, and the exit status is nonzero. A failing command is reported there with its command line, exit status and all that it printed, "
  "whatever bytes that is, exactly once for each failure however many operations and scripts the error passes through, and the error itself reaches the caller unchanged. The report of an unhandled error shows the error, "
  "the line of the script where it was raised and, in order, the calls by which scripts ran each other.",
  ["inputs", "faults"], "every nesting of operations and scripts an error passes through, and every output of the failing command",
  "Tests don't look at standard error; a report that is lost, doubled or replaced by a decoding error shows only for particular outputs and nestings.",
  [UT, LOAD, API], [{"name": "propagation of errors to the report", "where": "utils.py, loader.run_script, operations/api.py"}],
  "abstract interpretation of the raising, wrapping and reporting functions with printed text as terms",
  "A command failure with marked constant output (text, undecodable bytes, none) is propagated through nestings of up to four operations and scripts, and the printed terms are counted; the unhandled-error hook is evaluated for stacks of up to three scripts.")

NA = [
    ("C35", "Remote calls and runs terminate",
     "Every remote call, operation and run ends after finite time if the remote commands do, and no reply is waited for that is never sent because of a full pipe or a stopped process.",
     ["schedules"], "every scheduling of the two processes and their pipes",
     "Termination and pipe capacities depend on run-time sizes and scheduling; the parts of it that are static (one reply per request, flushed packets, input closed before waiting, no unread pipe) are decided by C15, C16, C17 and C22.",
     [TUN, DISP], "tunnel protocol"),
    ("C36", "Remote tools behave as the operations assume",
     "useradd, usermod, groupadd, systemctl, apt, pacman, emerge, git, ln, cp and the other tools an operation runs have the effect, output format and exit status the operation relies on, on every supported system.",
     ["configurations"], "every version and configuration of the remote tools",
     "The tools aren't part of this repository; the checks assume their documented semantics and decide which commands are issued when.",
     OPS, "commands run by the operations"),
    ("C37", "files.line with a user's regex matches the lines the user means",
     "For every regular expression given to files.line, exactly the lines which the expression is meant to match are considered present or removed.",
     ["inputs"], "every regular expression and file content",
     "Which lines match is decided by the re module at run time; what is done with matching and other lines is decided by C09.",
     [FILES], "line(regex=...)"),
    ("C38", "Group ordering scales to inventories of every size",
     "For dependency graphs of any size the ranks are computed without exceeding the recursion limit and in acceptable time.",
     ["inputs"], "graphs of unbounded size",
     "The bound depends on the interpreter's recursion limit and run time; C24 decides the order for all small graphs and families of larger ones.",
     ["src/fora/utils.py", INV], "rank_sort"),
]
NOT_APPLICABLE = []
for _id, _t, _s, _o, _q, _r, _f, _m in NA:
    p(_id, _t, _s, _o, _q, "A test observes single runs; this quantifies over run-time quantities.", _f, [{"name": _m, "where": ", ".join(_f[:2])}], "none", _r)
    NOT_APPLICABLE.append({"property": _id, "reason": _r})


P.sort(key=lambda x: x["id"])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                                "anchors": {"files": x["files"], "mechanism": x["mech"]}}, ensure_ascii=False) + "\n")
    checks = []
    for x in P:
        if x["id"] not in REGISTRY:
            assert any(n["property"] == x["id"] for n in NOT_APPLICABLE), x["id"]
            continue
        checks.append({"property": x["id"], "quick_cmd": f"python3 -m fa.run {x['id']} --tier quick",
                       "thorough_cmd": f"python3 -m fa.run {x['id']} --tier thorough", "technique": x["technique"], "level": "other",
                       "level_note": x["note"] + " Sound for the fully interpreted paths; paths that could not be interpreted are counted as undecided in the evidence."})
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q fa", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks: the checks read /repo/src only. Known and fixed findings: known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
