#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
CPE = "src/configparserenhanced/ConfigParserEnhanced.py"
SE = "wip/setenvironment/src/setenvironment/SetEnvironment.py"
EC = "src/configparserenhanced/ExceptionControl.py"
MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Loading the file list is all-or-nothing",
     "Whenever an access to a parser's configuration succeeds, the data served is exactly the merge, in list order, of the complete content of every listed .ini file. "
     "If the list is empty, or any listed file is missing, not a regular file, cannot be opened, cannot be decoded, is malformed, or fails part-way through being read, the access raises an error instead of serving data.",
     ["fault_sequences", "inputs", "schedules"],
     "every list of 1..4 files, every placement of an I/O fault (stat/open/read/close error, short read, EINTR, corruption, file swapped or removed between two system calls) in the load",
     "The tests load good files and one missing file; they never make open/read fail, never change a file between the existence check and the read, and never fail the k-th file of a list.",
     [CPE], [("configparserdata lazy loader", CPE), ("existence check before ConfigParser.read", CPE)],
     [("raw configuration", "the merged ConfigParser object", CPE)],
     ["configparserdata", "configparserenhanceddata", "configparserenhanceddata.sections()"])
prop("C02", "A failed load leaves nothing behind and is retryable",
     "After any failed attempt to load the configuration, no later access through the same parser object serves an empty or partially loaded configuration: every access keeps raising an error while the cause persists. "
     "Once the cause is gone, the next access on the same object serves exactly the files' content.",
     ["fault_sequences", "histories"],
     "every history of accesses (raw data, section queries, exports, validation) interleaved with faults that appear, persist for some accesses and heal",
     "The tests stop at the first exception; none touches the object again after a failed load.",
     [CPE], [("configparserdata lazy loader", CPE)],
     [("raw configuration cache", "set only by a complete load", CPE)],
     ["configparserdata", "configparserenhanceddata", "unroll_to_str", "parse_section"])
prop("C03", "Section content does not depend on how or when it is queried",
     "For every section, the options and values returned are those of a depth-first in-place expansion of its `use` operations (the default section expanded first, options handled by a handler left out, the last visited value of a key winning), whichever query method is used. "
     "The answer is the same whatever was queried, parsed, force-reparsed, explicitly set in other sections, or failed before, including queries made by a handler while another section is being parsed.",
     ["histories", "inputs", "fault_sequences"],
     "every file, every order and mix of the query methods, with handlers that re-enter the parser and queries that fail in between",
     "The tests query a handful of fixed files in one order each; lazy evaluation makes the reachable cache states depend on the whole access history.",
     [CPE], [("lazy per-section parse and cache of parsed sections", CPE), ("use handler recursion", CPE)],
     [("parsed-section set", "sections already parsed", CPE), ("section data", "options per section", CPE)],
     ["configparserenhanceddata[...]", "get", "items", "options", "has_option", "parse_section", "parse_all_sections"])
prop("C04", "A failed parse never exposes partial section data",
     "If parsing a section fails at any point (a handler raises or is interrupted, a `use` target is missing, an option is malformed), the failure reaches the caller and no later query returns a partial result for that section. "
     "The next query of it either fails again for the same cause or, once the cause is gone, returns the complete content, and every other section is unaffected.",
     ["fault_sequences", "histories", "crash_points"],
     "every point of a parse at which a handler or option can fail, every section on the `use` path it can happen in, every later history of queries",
     "The tests check that an exception is raised; none queries the same parser again afterwards.",
     [CPE], [("parse_section driver", CPE), ("parsed-section set updated around the parse", CPE)],
     [("parsed-section set", "sections already parsed", CPE)],
     ["configparserenhanceddata[...]", "parse_section", "has_option", "get"])
prop("C05", "Handlers run exactly once per option visit, in expansion order",
     "One parse calls the initialize handler once and first, then for every option in depth-first expansion order (default section first) exactly one handler - the one for its operation, otherwise the generic one - with that option's own section, operation, parameters and value, and finally the finalize handler once; the parse result is the data the handlers shared. "
     "If a handler fails, no handler runs after it in that parse, neither finalize nor any other, and a repeated parse starts from fresh shared data. A query about a section that was already parsed successfully runs no handler again.",
     ["fault_sequences", "histories", "inputs"],
     "every file, handler set (public, private, hyphenated) and failure point, over repeated parses of the same object",
     "The tests look at a few logged sequences without failures; the order and multiplicity after a failure or on re-parse is never examined.",
     [CPE], [("recursive section parser", CPE), ("handler lookup", CPE), ("handler-parameter copies per recursion level", CPE)],
     [("handler parameters", "per-level option fields plus shared data", CPE)],
     ["handler_initialize", "handler_finalize", "handler_<operation>", "_handler_<operation>", "parse_section result"])
prop("C06", "Every `use` graph terminates and cycles are skipped and reported",
     "For any graph of `use` links - self links, long cycles, cycles through the default section, diamonds - parsing any section finishes, visiting a section again only when it is not already open on the current expansion path. "
     "A link back to an open section is skipped with a warning-severity event (a ValueError only at exception control level 5), all other options of the sections involved are still present, and a parse aborted by that error can be repeated at a lower level with the full result.",
     ["inputs", "histories", "configurations"],
     "every `use` graph up to 7 sections, every root, every exception control level, including aborted and repeated parses",
     "The tests contain one three-section cycle and one default section; no cycle reaches the default section and no parse is repeated after the cycle error.",
     [CPE], [("open-section set maintained along the recursion", CPE), ("use handler cycle test", CPE)],
     [("processed sections", "sections open on the current path", CPE)],
     ["configparserenhanceddata[...]", "parse_section", "handler call counts"])
prop("C07", "Exception control level alone decides raise, warn or ignore",
     "At every point of any history, an event raises its exception exactly when the current exception control level reaches its severity (catastrophic always, critical from 2, serious from 3, minor from 4, warning and silent at 5); otherwise execution continues with the same result as if the event had not occurred. "
     "A non-raised event prints a warning exactly when the level is above 0, warnings are not silenced and the event is not of the silent kind. "
     "Handler return codes above 10 are catastrophic, other non-zero codes are warnings, an ambiguous public/private handler pair is serious (the public one runs), and a `use` cycle is a warning.",
     ["fault_sequences", "configurations", "histories"],
     "every level (including out-of-range assignments, which clamp to 0..5), every flag setting changed at any time, every injected handler return code and ambiguity at any point of a parse",
     "The tests call single events at single levels; they do not change levels between events inside one history or compare the surviving parse with an event-free one.",
     ["src/configparserenhanced/ExceptionControl.py", CPE],
     [("exception_control_event", "src/configparserenhanced/ExceptionControl.py"), ("handler return check", CPE)],
     [("exception control level", "threshold 0..5", "src/configparserenhanced/ExceptionControl.py")],
     ["exceptions raised", "stdout", "parse results"])
prop("C08", "Answers come from one load until the source is reassigned",
     "Between assignments of the file list or the delimiters, every section and raw-data answer comes from the single load already made, even if the files on disk change, vanish or become unreadable. "
     "After the file list or the delimiters are assigned, every later answer (raw data, section data, last parse result, exports, recorded environment actions) derives only from the files and delimiters now in force. "
     "An assignment that is rejected leaves the previous source in force.",
     ["histories", "fault_sequences"],
     "every history of queries, reassignments (accepted and rejected), on-disk edits, deletions and read faults",
     "One test reassigns the file list and looks only at the raw data; section data cached from the old file, recorded actions and rejected assignments are never re-read.",
     [CPE, SE], [("file list setter", CPE), ("delimiter setter", CPE), ("cache reset helper", CPE), ("actions cache", SE)],
     [("caches", "raw data, section data, last result, actions", CPE)],
     ["inifilepath", "configparser_delimiters", "configparserenhanceddata", "generate_actions_script"])
prop("C09", "No operation leaves a parser's settings changed",
     "Queries, parses, exports and validations - whether they succeed or fail at any point - leave the parser's exception control level, warning flags, debug level, file list, delimiters and default-section name exactly as the user last set them. "
     "In particular a failure during an export never leaves errors suppressed for later operations.",
     ["fault_sequences", "histories"],
     "every operation, every failure point inside it (handler exception, I/O error, full disk, missing section), every setting combination",
     "The tests check settings after successful calls only.",
     [CPE], [("level lowered and restored around an export", CPE)],
     [("exception control level", "0..5", "src/configparserenhanced/ExceptionControl.py")],
     ["exception_control_level", "debug_level", "inifilepath", "configparser_delimiters"])
prop("C10", "An export carries the resolved configuration, whole or not at all",
     "Loading the exported text of a section or of the whole file with the same delimiters gives, for every exported section, the same options and values that section queries give (an absent value counting as empty), for both the base-class and the subclass export. "
     "Writing an export reports success only if the whole text has been handed over to the file object, and through any sequence of short writes, interruptions, full-disk or device errors the file holds a prefix of that text and never reads as success when truncated at close.",
     ["inputs", "fault_sequences"],
     "every file (multi-line, empty, percent-escaped and quoted values, custom delimiters), every section, every write fault position",
     "The tests compare one fixed single-line file with a golden text and never reload it or fail a write.",
     [CPE], [("unroll_to_str", CPE), ("write", CPE)], [], ["unroll_to_str", "write"])
prop("C11", "Independent parser objects never affect one another",
     "Any number of parser, property-holder, environment-script, keyword-parser or system-determination objects used by different threads, each object by one thread, give under every interleaving exactly the results and messages each gives when run alone, even when they share classes, files or section names.",
     ["schedules"],
     "every interleaving of 2..4 threads at source-line granularity, each running its own parser history",
     "All tests are single-threaded and use one object at a time; shared class-level or default-argument state would be invisible.",
     [CPE, "src/configparserenhanced/TypedProperty.py", "src/configparserenhanced/HandlerParameters.py", "src/configparserenhanced/ExceptionControl.py", "src/configparserenhanced/Debuggable.py"],
     [("per-instance lazy attributes", CPE), ("deep-copied property defaults", "src/configparserenhanced/TypedProperty.py")],
     [("instance attributes", "all parser state", CPE)], ["query results", "per-thread stdout"])
prop("C12", "Typed-property assignment is validated, atomic and per object",
     "An assignment either stores a value that has an allowed type, has been converted to the internal type and transformed, and passed the validator, or it raises and the previous value (or unassigned state) remains readable unchanged - also when the conversion, transform or validator itself raises. "
     "Reading before assignment yields a fresh copy of the default (or the factory's product) or raises when assignment is required first, deleting returns to that state, and objects of the same class never share a value.",
     ["fault_sequences", "histories", "configurations"],
     "every property configuration and every history of assign/read/mutate/delete over several objects with injected failures in conversion, transform, validator and factory",
     "The tests assign once per configuration; none reads back after a failed assignment or mutates a default on one object and reads another.",
     ["src/configparserenhanced/TypedProperty.py", "src/configparserenhanced/HandlerParameters.py"],
     [("typed_property getter/setter/deleter", "src/configparserenhanced/TypedProperty.py")],
     [("stored value and assigned flag", "per object", "src/configparserenhanced/TypedProperty.py")],
     ["property read", "property assignment", "property delete"])
prop("C13", "Applying a section performs its recorded actions, in order, once",
     "Applying a section changes the process environment exactly as executing its environment-variable and module actions one after another in expansion order would (append, prepend, set, set-if-empty, unset, remove substring, remove path entry, find in path, with $VAR references expanded at that moment; remove operations having dropped the earlier matching actions), touching no other variable. "
     "If an action fails the environment is that of the actions before it and the failure is raised, except that below exception control level 2 a failed module command is skipped and a non-zero status is returned; a run with a failed action never returns 0.",
     ["fault_sequences", "histories", "inputs"],
     "every action list, starting environment, exception control level and placement of module-command failures, over repeated applications",
     "The tests apply short fixed lists against a real or mocked module command that succeeds; failure part-way through a list and the environment it leaves are not examined.",
     [SE, MH], [("apply loop", SE), ("environment operation helper", SE), ("action recording handlers", SE)],
     [("actions", "recorded action list per section", SE), ("process environment", "os.environ", SE)],
     ["os.environ", "apply return value and exceptions", "module commands issued"])
prop("C14", "Generated scripts do what apply does",
     "From any starting environment, running the Python script or the Bash script generated for a section ends with the same environment, the same module commands in the same order, and the same success or failure as applying the section in-process, for every section whose actions are supported and whose module commands succeed.",
     ["inputs", "configurations", "histories"],
     "every action list over the supported operations, every starting environment (set, empty, unset variables), both script languages",
     "The tests compare generated text with golden files; the scripts are not executed against varied environments.",
     [SE], [("script generation", SE), ("bash function header", SE), ("python header copied from the in-process helpers", SE)],
     [], ["environment after the script", "exit status", "module command log"])
prop("C15", "Writing a script file is complete or reported, never destructive early",
     "Writing the actions of a section to a file reports success only if the file then holds exactly the complete generated script; any disk failure while writing is raised. "
     "If the script cannot be generated (failed parse, unknown section, unreadable configuration, invalid interpreter), an existing file at the destination is left byte-for-byte unchanged and none is created.",
     ["fault_sequences", "crash_points", "inputs"],
     "every failure point in generation and every write fault (open error, short write, full disk, close error), over new and existing destinations",
     "The tests write to healthy disks from healthy configurations only.",
     [SE], [("write_actions_to_file", SE)], [], ["destination file bytes", "return value and exceptions"])
prop("C16", "A failed module command never passes as success nor changes the environment",
     "For every outcome of the external module command - missing executable, spawn failure, non-zero exit, error text, failure marker, output that raises - the helper reports failure (non-zero status or exception), and when the command itself reported failure by exit status or error text, none of its output is executed. "
     "When the command succeeds its output takes effect completely, exactly once, and status 0 is returned, and exactly the requested command with its arguments was run. With lmod, which gives no status, a load, unload, swap or use whose effect is found missing afterwards is reported as failed.",
     ["fault_sequences", "inputs"],
     "every command/argument form and every combination of exit status, error text, output, spawn failure and executable lookup outcome",
     "The tests mock one success and a few failures and do not check that the environment is untouched by a failing command.",
     [MH], [("module function for modulecmd", MH)], [("process environment", "os.environ", MH)],
     ["os.environ", "return value and exceptions", "spawned command line"])
prop("C17", "System determination is stable, and a rejection stays a rejection",
     "The system name is determined by the host name, the system names present in the build name and the force flag: a host-name match is used when the build name names no system, a build-name system needs the force flag unless it equals the host's, and no match or several build-name systems are rejected. "
     "Once determined it never changes for that object; after a rejection or a failed read of the systems file every further request is decided afresh and never yields a name that a new object would reject.",
     ["histories", "fault_sequences", "inputs"],
     "every systems file, host name, build name and force flag, over repeated requests with the host name changing and file faults in between",
     "The tests construct one object per case and request the name once.",
     ["wip/determinesystem/determinesystem/DetermineSystem.py"],
     [("determine_system", "wip/determinesystem/determinesystem/DetermineSystem.py")],
     [("cached system name", "per object", "wip/determinesystem/determinesystem/DetermineSystem.py")],
     ["system_name", "SystemExit"])
prop("C18", "Keyword selection always reflects the current build name and file",
     "After any history of build-name assignments, queries and failures, the selected options, their string form, the default-option test and the alias-to-key lookup equal those of a new parser created with the current build name: one option per flag taken from the build name, the first listed option as default, several allowed (sorted) only for select-many flags. "
     "Inconsistent files or build names are rejected on every request, not only on the first, and a failed file read is retried rather than remembered.",
     ["histories", "fault_sequences", "inputs"],
     "every flags file, every history of build-name changes and queries with file faults and rejections in between",
     "The tests set the build name at most once after construction and never query again after a rejection.",
     ["wip/genconfig/src/config_keyword_parser.py", "wip/keywordparser/keywordparser/KeywordParser.py"],
     [("cached selections cleared by the build-name setter", "wip/genconfig/src/config_keyword_parser.py"), ("value list validation", "wip/keywordparser/keywordparser/KeywordParser.py")],
     [("selected options cache", "per object", "wip/genconfig/src/config_keyword_parser.py")],
     ["selected_options", "selected_options_str", "is_default_option", "get_key_for_section_value"])
prop("C19", "LoadEnv publishes only complete, validated environment scripts",
     "At every instant of a LoadEnv run, including a crash or disk error at any point, if the published location file names an existing script then that script is the complete script of the requested environment and that environment had been applied successfully first. "
     "A run whose configuration is invalid, whose environment cannot be determined or whose application fails publishes nothing, and a run that reports success has published the location and written every requested script completely. The requested environment is the longest environment name, otherwise the longest alias, that stands literally between delimiters in the build name; a request repeated on the same object after a failure or with another build name is decided as by a new object.",
     ["crash_points", "fault_sequences"],
     "every crash point and disk fault in a run, every failing action, every build name",
     "The LoadEnv tests cannot even run in this tree (missing submodules) and contain no crash or fault.",
     ["wip/loadenv/load_env.py", "wip/loadenv/loadenv/EnvKeywordParser.py", SE],
     [("main: apply, then write scripts, then publish location", "wip/loadenv/load_env.py")],
     [("location file", "path of the script to source", "wip/loadenv/load_env.py")],
     ["location file", "load_matching_env script", "--output script"])
prop("C20", "GenConfig overwrites only with consent and publishes only complete files",
     "An existing cmake fragment is removed or modified only if --yes was given or the user's answer starts with y, and only after the configuration has been validated and the fragment generated; success means the file holds exactly the generated options. "
     "Any answer that starts with neither y nor n, also an empty one, is asked again, and end of input is no consent. The published argument-file location always names a complete argument file, at every crash point, and a failed run publishes nothing new; a request repeated on the same object after a failure is decided afresh for its own build name.",
     ["crash_points", "fault_sequences", "histories"],
     "every sequence of user answers (including end of input), every crash point and disk fault, valid and invalid configuration files",
     "The GenConfig tests cannot run in this tree; upstream they mock the prompt with fixed answers on a healthy disk.",
     ["wip/genconfig/gen_config.py"],
     [("prompt loop before unlink", "wip/genconfig/gen_config.py"), ("main: arguments file before location file", "wip/genconfig/gen_config.py")],
     [], ["cmake fragment bytes", "bash_cmake_args files", "exit status"])
prop("C21", "Validation reports every unhandled option, whatever happened before",
     "Validating a section or a whole file reports failure exactly when some option in the section's (or any section's) `use` expansion has no handler, naming every such option, and raises or returns according to the exception control level. "
     "The verdict is the same after any history of queries, failed parses and earlier validations, and a parse failure during validation surfaces instead of counting as valid.",
     ["histories", "fault_sequences", "inputs"],
     "every file and handler set, every prior history including failed parses, every exception control level",
     "The tests validate three fixed files on fresh objects.",
     [CPE], [("assert_section_all_options_handled / assert_file_all_sections_handled", CPE)],
     [("section data", "unhandled options per section", CPE)],
     ["assert_file_all_sections_handled", "assert_section_all_options_handled"])
prop("C25", "Debug level and warning flags only change what is printed",
     "Whatever the debug level and the silent/compact warning flags are, and however they change in between, every history of queries, parses, exports, validations, script generations and applies has the same answers, exceptions, handler calls, recorded results, written files, module commands and environment changes. "
     "Raising the debug level only adds output: nothing printed at level 0 is lost, no message of a higher level appears, and every skipped event is reported exactly once unless warnings are silenced.",
     ["histories", "fault_sequences", "inputs"],
     "every history, every fault sequence (handlers, disk, module commands) and every sequence of debug levels and warning flags",
     "Tests run each debug level on a fixed healthy file and look at the output; nothing compares results between levels.",
     ["src/configparserenhanced/Debuggable.py", CPE, EC],
     [("debug_message call sites in the parse", CPE), ("_loginfo_add", CPE), ("exception_control_event", EC)],
     [("_debug_level, _loginfo", "diagnostic state of a parser", CPE)],
     ["results at debug level n equal results at debug level 0"])
prop("C26", "The shell wrappers report every failure and load only on success",
     "Sourcing load-env.sh or gen-config.sh returns a non-zero status whenever a tool it runs fails, is killed, or publishes a location without a script, or when the shell is interrupted while the tool runs; then no environment script is sourced, cmake is not run, and the shell's exported environment and directory are unchanged. "
     "On success exactly the published script is sourced, once, in the calling shell with --ci-mode and in a sub-shell otherwise, and the configuration step runs once after it. The wrappers remove the temporary files they used and no other file, whatever the history of earlier runs and whatever ordinary variables the shell has, and they leave no function and no signal trap of their own in the shell.",
     ["fault_sequences", "crash_points", "histories"],
     "every exit status, signal and published location of each tool, signals to or death of the shell while a tool runs, every sequence of runs in one shell or in a new shell after a crash",
     "No test runs the wrappers.",
     ["wip/loadenv/load-env.sh", "wip/genconfig/gen-config.sh"],
     [("cleanup and the status of load_env.py", "wip/loadenv/load-env.sh"), ("cleanup_gc and the status of each step", "wip/genconfig/gen-config.sh")],
     [],
     ["return status of the sourced wrapper", "exported environment", "files in the current directory and /tmp/$USER"])
prop("C27", "Listings name exactly what can be selected and change nothing",
     "Listing the environments names exactly the environments of the determined system, each with exactly its aliases; listing the configuration flags names every flag with its kind and all its options in order, the first marked as default; listing the configurations names exactly the configuration sections of the determined system in file order. "
     "A listing changes no file, and when the system cannot be determined, a file it needs cannot be read or is inconsistent, it fails instead of listing; repeated on the same object after failures, validations or other listings it says the same as on a new object.",
     ["fault_sequences", "histories", "inputs"],
     "every set of configuration files, host, build name and force flag, every failed read, print or host-name call, every sequence of requests on one object",
     "No test calls the listings of LoadEnv or GenConfig as a whole.",
     ["wip/loadenv/load_env.py", "wip/loadenv/loadenv/EnvKeywordParser.py", "wip/genconfig/gen_config.py", "wip/genconfig/src/config_keyword_parser.py"],
     [("list_envs", "wip/loadenv/load_env.py"), ("get_msg_showing_supported_environments", "wip/loadenv/loadenv/EnvKeywordParser.py"),
      ("list_configs and list_config_flags", "wip/genconfig/gen_config.py"), ("get_msg_showing_supported_flags", "wip/genconfig/src/config_keyword_parser.py")],
     [],
     ["output and exit of --list-envs, --list-configs, --list-config-flags", "files on disk"])
prop("C22", "Formatted messages contain the whole text",
     "A formatted error message contains every line of its text, every listed item and every extra line, in order, inside the box, whatever the text.",
     ["inputs"], "every message, kind, item list and extras",
     "Golden-text tests of a few messages.",
     ["wip/keywordparser/keywordparser/FormattedMsg.py"], [("get_formatted_msg", "wip/keywordparser/keywordparser/FormattedMsg.py")])
prop("C23", "Option keys are split the way a POSIX shell splits words",
     "An option key is split into operation and parameters by shell quoting rules, hyphens in the operation being equivalent to underscores, and keys whose first word has other characters are plain options.",
     ["inputs"], "every key string",
     "A few fixed keys.", [CPE], [("key tokenizer", CPE), ("operation name transformation", CPE)])
prop("C24", "Comments in keyword lists never become keywords",
     "In a multi-line keyword list, text from a # to the end of its line is never part of a keyword and no keyword outside comments is lost.",
     ["inputs"], "every multi-line value",
     "A few fixed values.", ["wip/keywordparser/keywordparser/KeywordParser.py"], [("value list regular expression", "wip/keywordparser/keywordparser/KeywordParser.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
