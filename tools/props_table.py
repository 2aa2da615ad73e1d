P("C01", "`use` expansion is depth-first in file order and the last option wins",
  "The options of a section are those found by walking it from top to bottom and replacing every `use X` option "
  "by the walk of section X at that point, to any depth. When the same key is met more than once the value met "
  "last is the one presented, and no option outside that walk, and no `use` option itself, is ever presented. "
  "A `use` of a section that does not exist is an error and not an empty expansion.",
  ["inputs", "configurations"],
  "Every set of sections, options, values and `use` links (chains, diamonds, repeated links, quoted names), and "
  "every section asked for.",
  "The tests expand a handful of fixed files; the order in which options and links interleave, diamonds and "
  "repeated links are unbounded.",
  [CPE, "src/configparserenhanced/HandlerParameters.py"],
  [("recursive walk of a section", CPE + ":_parse_section_r"),
   ("`use` handler", CPE + ":_handler_use"),
   ("storing an unhandled option under the root section", CPE + ":_launch_generic_option_handler"),
   ("lazy parsed view", CPE + ":ConfigParserEnhancedData")],
  ["configparserenhanceddata[section]", "options()", "items()", "parse_section()"],
  "Up to 3 sections with up to 3 entries each, keys, values and link targets symbolic.",
  [("section data", "options presented per root section", CPE + ":ConfigParserEnhancedData.data")])

P("C02", "Cyclic `use` links terminate and only the links closing a cycle are skipped",
  "Expanding a section terminates for every arrangement of `use` links, including self links and cycles. Exactly "
  "the links that lead back to a section still being expanded are skipped (each announced by one warning event, "
  "which raises instead when warnings are configured to raise), and all other options and links take effect; in "
  "particular the same section reached twice on different branches is expanded twice.",
  ["inputs", "configurations"],
  "Every directed graph of `use` links over the sections, every root, every exception control level.",
  "Tests contain two cyclic files; termination and 'nothing else is dropped' range over all link graphs.",
  [CPE],
  [("set of sections on the current branch", CPE + ":_parse_section_r"),
   ("cycle check", CPE + ":_handler_use")],
  ["configparserenhanceddata[section]", "parse_section()", "EXCEPTION SKIPPED notices on stdout", "ValueError"],
  "All link graphs over 2 and 3 sections with up to 2 links each, levels 0..5.")

P("C03", "Keys, values and section names arrive as written",
  "An option's key, value and section name reach the user with the characters and letter case of the file: only "
  "surrounding white space and double quotes padding the value are removed, an option without delimiter has no "
  "value (None) while one with an empty value has the empty string. Unicode text is preserved, and files written "
  "with CR-LF or LF line ends, comments and blank lines give the same result.",
  ["inputs"],
  "All keys, values and section names over the stated alphabets and lengths, both delimiters, any spacing.",
  "Tests use fixed ASCII words; which characters are mangled is a question about every text.",
  [CPE],
  [("raw parser settings (case, no-value, delimiters)", CPE + ":configparserdata"),
   ("clean-up of key and value", CPE + ":_parse_section_r")],
  ["configparserenhanceddata", "configparserdata", "handler parameters"],
  "Texts up to the lengths in the evidence; `%` excluded (standard interpolation).")

P("C04", "An option is dispatched to exactly the handler its first word names",
  "An option whose first word (with `-` read as `_`) names an operation with a public or private handler is given "
  "to that handler, exactly once per visit, with the words of the key as parameters (shell quoting respected) and "
  "the option's value, and does not appear among the section's options; every other option appears there and "
  "reaches no operation handler. If both a public and a private handler exist the event is serious, and when it "
  "does not raise the public one is used; a handler's nonzero return code is a warning up to 10 and always raises "
  "above 10.",
  ["inputs", "configurations"],
  "All option keys over the stated alphabet, quoting of parameters, handler return codes and control levels.",
  "Tests dispatch a few fixed operation names.",
  [CPE, "src/configparserenhanced/HandlerParameters.py"],
  [("tokenising the key", CPE + ":_tokenize_option_key"),
   ("handler lookup", CPE + ":_locate_handler_method"),
   ("return code check", CPE + ":_check_handler_rval")],
  ["handler calls and their parameters", "configparserenhanceddata"],
  "Keys up to the lengths in the evidence over a class with 6 public and 4 private handlers.")

P("C05", "A parse initializes first, finalizes last, and returns the shared data",
  "One request to parse a section runs the initialization hook once before any option and the finalization hook "
  "once after the last option of the requested section, never for sections reached by `use`, and each only if "
  "requested. All hooks and handlers of that parse see the same shared data, a different parse starts with empty "
  "shared data, and the shared data is what the request returns and what is remembered as last result; every "
  "handler is told the section it runs in and the section requested.",
  ["inputs", "histories", "configurations"],
  "All small files with handled operations and `use` links, all combinations of the two flags, and sequences of "
  "requests.",
  "Tests check the order on one file.",
  [CPE, "src/configparserenhanced/HandlerParameters.py"],
  [("hooks around the root section", CPE + ":_parse_section_r"),
   ("propagation of shared state", CPE + ":_new_handler_parameters"),
   ("remembered result", CPE + ":parse_section")],
  ["handler_initialize / handler_finalize", "return value of parse_section", "parse_section_last_result"],
  "Files of up to 3 sections, symbolic contents, up to 2 successive requests.")

P("C06", "Answers do not depend on earlier queries, failures or other objects",
  "What a query about a configuration answers (value or error) is determined by the file and the current settings: "
  "it is the answer a fresh object gives, whatever was asked before, including queries that failed, and whatever "
  "other objects were used. After assigning other files or delimiters every answer comes from the new setting. A "
  "section that is not in the file is reported missing every time and never comes into being.",
  ["histories", "inputs", "configurations"],
  "All sequences of queries up to the stated length over all query kinds, with failing and succeeding files.",
  "Tests make one query per object; lazily cached state depends on the history.",
  [CPE],
  [("lazy view and its caches", CPE + ":ConfigParserEnhancedData"),
   ("cache reset", CPE + ":_reset_configparserdata"),
   ("file list setter", CPE + ":inifilepath")],
  ["every public query", "exceptions"],
  "Histories of 1..2 earlier queries (19 kinds) followed by any query.",
  [("parsed marks", "sections regarded as parsed", CPE + ":ConfigParserEnhancedData._sections_checked")])

KW = "wip/keywordparser/keywordparser/KeywordParser.py"

P("C07", "Loading reads every listed file in order, or fails every time",
  "A configuration is the merge of all listed files in list order: a later file adds sections and options and "
  "overrides the values of earlier ones, whether names are given as text, as path object, or as a list of both. "
  "If any listed file is missing or malformed (duplicate section, duplicate option, syntax error, no "
  "section header) every access raises, the first and all later ones, and no partial configuration is ever "
  "presented. Files are read as UTF-8 text.",
  ["inputs", "fault_sequences", "histories"],
  "Every list of up to 3 good or bad files with symbolic contents, and every pair of accesses.",
  "Tests load one or two fixed files; which file wins and what remains after a failure depends on contents and history.",
  [CPE],
  [("file list", CPE + ":inifilepath"), ("loading", CPE + ":configparserdata")],
  ["configparserdata", "configparserenhanceddata", "parse_section()", "exceptions"],
  "Up to 3 files with up to 2 sections each; see the evidence for bounds.")

P("C08", "The default section comes first in every expansion, exactly once",
  "When the file has a section with the configured default section name, parsing any section first expands that "
  "section (with all its `use` links and operations) and then the requested one, so defaults are overridden by "
  "the section itself. Its options are presented in every section, its operations run exactly once per parse, and "
  "asking for the default section itself expands it once. A section that merely has a similar name, or is "
  "called DEFAULT when another name is configured, is an ordinary section.",
  ["inputs", "configurations"],
  "All small files with a default section linked with the others in any way, any configured name, any root.",
  "The tests contain one file with a default section.",
  [CPE],
  [("default section handling", CPE + ":_parse_section_r"), ("name", CPE + ":default_section_name"),
   ("raw parser", CPE + ":configparserdata")],
  ["configparserenhanceddata[section]", "handler calls", "configparserdata"],
  "Up to 3 sections with 1..2 entries (options, links, operations).")

P("C09", "Unrolled output reads back as the same configuration without `use`",
  "The text of unroll_to_str (and what write emits) is itself a valid configuration file that, read back with "
  "the same settings, presents for every section the same keys and values as the fully expanded original, with "
  "no `use` left, for the whole file or one section; operations that a handler consumes are left out only when "
  "the handler-aware parser is asked for. Unrolling changes nothing in the object.",
  ["inputs", "configurations"],
  "All values of stated length over an alphabet with white space, quotes, delimiters, comment and percent "
  "characters, multi-line values, all small link graphs, delimiter sets and default section names.",
  "Round trips depend on every character of every value.",
  [CPE],
  [("unrolling", CPE + ":unroll_to_str"), ("writing", CPE + ":write")],
  ["unroll_to_str()", "write()", "configparserenhanceddata of the text read back"],
  "Values of 0..2 symbolic characters over 16 (also as second line), keys of 1..2, graphs of 2..3 sections.")

P("C10", "Validation reports unhandled options if and only if there are any",
  "assert_section_all_options_handled and assert_file_all_sections_handled report exactly when some option met in "
  "the expansion of a checked section (including options reached by `use`) has no handler: they raise when "
  "exception control says so for a SERIOUS event (and do_raise is not False), and otherwise return something "
  "nonzero; the section check names every unhandled key, the file check every section that has one. Where all "
  "options are handled the result is 0 and nothing is reported.",
  ["inputs", "configurations"],
  "All small files mixing handled operations, look-alikes, plain options and links, every level and flag.",
  "Tests validate a couple of fixed sections.",
  [CPE],
  [("section check", CPE + ":assert_section_all_options_handled"),
   ("file check", CPE + ":assert_file_all_sections_handled"),
   ("operations known", CPE + ":get_known_operations")],
  ["return value", "ValueError", "message text"],
  "Up to 3 sections with up to 2 entries.")

P("C11", "Exception control raises exactly what the level table says",
  "An event of a given type raises if and only if the current exception_control_level is at least the level the "
  "table assigns to that type (SILENT and WARNING 5, MINOR 4, SERIOUS 3, CRITICAL 2, CATASTROPHIC always), and then "
  "raises the class and message given and prints nothing. Otherwise nothing is raised, and one notice naming event, "
  "exception and message is printed (one line if compact), except at level 0, for SILENT events and when warnings "
  "are silenced, which print nothing. Event type names are case insensitive, unknown types and things that are no "
  "exception class are refused, and the level is clamped to 0..5.",
  ["inputs", "configurations"],
  "All event types in any letter case, all integers as level, all flags, symbolic messages.",
  "Tests cover some cells of the table.",
  ["src/configparserenhanced/ExceptionControl.py"],
  [("event", "src/configparserenhanced/ExceptionControl.py:exception_control_event"),
   ("level", "src/configparserenhanced/ExceptionControl.py:exception_control_level")],
  ["exceptions", "stdout"],
  "Levels -3..9, messages up to 2 characters, unknown names up to 3 characters.")

P("C12", "Debug output appears exactly at its level and changes nothing else",
  "debug_message prints its text (with its prefix and line end as asked) if and only if the debug level is at "
  "least the message's level. The debug level never influences any parsed result, handler call, return value or "
  "error of the parser. Levels are non-negative integers; other values are converted or refused, never stored.",
  ["inputs", "configurations"],
  "All debug levels in range, messages, and small files parsed at two debug levels.",
  "Non-interference is a statement about pairs of runs.",
  ["src/configparserenhanced/Debuggable.py", CPE],
  [("message", "src/configparserenhanced/Debuggable.py:debug_message"),
   ("level", "src/configparserenhanced/Debuggable.py:debug_level")],
  ["stdout", "configparserenhanceddata", "exceptions"],
  "Levels -2..8, messages up to 3 characters, files of 2 sections.")

P("C13", "Typed properties check, convert and validate every assignment, per object",
  "A typed property answers its default until assigned and the last accepted value afterwards. An assignment is "
  "accepted only if the value has the expected type, or is converted to it when conversion is asked for, and "
  "passes the validator; a refused assignment raises and leaves the old value. Values are kept per object, "
  "defaults are not shared between objects, reading a property that requires assignment first raises, and "
  "deleting it returns it to unassigned.",
  ["inputs", "histories", "configurations"],
  "All sequences of read, assign, delete and in-place modification up to the stated length over 11 kinds of property.",
  "Tests exercise single assignments.",
  ["src/configparserenhanced/TypedProperty.py", "src/configparserenhanced/HandlerParameters.py"],
  [("descriptor", "src/configparserenhanced/TypedProperty.py:typed_property"),
   ("fields", "src/configparserenhanced/HandlerParameters.py:HandlerParameters")],
  ["attribute reads", "TypeError / ValueError / UnboundLocalError"],
  "Up to 3 operations (4 thorough) on two objects, 11 values.")

P("C14", "A keyword option lists exactly its uncommented words, and only valid ones",
  "The values of a keyword option are its lines in order, without comments, surrounding white space and empty "
  "lines. If a value repeats, equals one of the section's keys, or contains white space or an underscore (other "
  "than SELECT_ONE and SELECT_MANY), the program exits with an error instead of answering. Looking up a value "
  "finds the key that lists it, and exits if none does; a missing section or key is a KeyError. Options brought in "
  "by `use` count like own ones.",
  ["inputs"],
  "All option texts of the stated number of lines and length over an alphabet with comments, blanks and carets.",
  "Tests use a few fixed files.",
  [KW],
  [("values", KW + ":get_values_for_section_key"), ("lookup", KW + ":get_key_for_section_value")],
  ["return values", "SystemExit", "KeyError"],
  "Up to 3 lines of up to 3 characters.")

P("C15", "A build name selects exactly the environment it names",
  "The environment chosen is one whose name, or else one of whose aliases, occurs in the build name as a run of "
  "whole `_`-separated words, names before aliases and longer ones before shorter ones; names and aliases are "
  "taken literally. If none occurs the program exits and lists every environment and alias of the system. "
  "Aliases that are ambiguous, equal an environment name, or contain an underscore are refused when the file is loaded. "
  "The result is qualified with the system name and is the same each time it is asked for.",
  ["inputs"],
  "All environment names, aliases and build names over the stated alphabets and lengths.",
  "Which of several overlapping names wins is a matter of every combination of names.",
  ["wip/loadenv/loadenv/EnvKeywordParser.py", KW],
  [("selection", "wip/loadenv/loadenv/EnvKeywordParser.py:qualified_env_name"),
   ("alias checks", "wip/loadenv/loadenv/EnvKeywordParser.py:assert_alias_list_values_are_unique")],
  ["qualified_env_name", "SystemExit", "KeyError"],
  "2 environments, names and aliases of 1..2 characters, build names of 1..3 (5 thorough), 3 systems.")

P("C16", "The system follows from host name, build name and force flag",
  "The system is the one whose host name patterns (regular expressions, comments stripped) match the host, the "
  "first in the file if several do, unless the build name contains a system's name as a `_`-separated word: then "
  "it is that system if the host agrees or force is given, and the program exits otherwise. Several system names "
  "in the build name, or neither source naming a system, exit too. Asking again gives the same answer, including "
  "the refusal; silent prints nothing.",
  ["inputs", "configurations"],
  "All build names and patterns of the stated lengths, all subsets of matching systems, all flags.",
  "Tests fix a few host and build names.",
  ["wip/determinesystem/determinesystem/DetermineSystem.py"],
  [("determination", "wip/determinesystem/determinesystem/DetermineSystem.py:system_name")],
  ["system_name", "SystemExit", "stdout"],
  "Patterns and host names of 1..3 characters, build names of 1..5 (7 thorough), 3 systems.")

P("C17", "Each flag takes the options the build name gives, else its default",
  "For every flag of the configure-flags section, in file order, the selected options are those of its options "
  "that are `_`-separated words of the build name (sorted when several), or its first option when none is. More "
  "than one for a SELECT_ONE flag, an unknown flag type, and an option that two flags share are errors. "
  "Assigning another build name selects anew; the selection as text joins the options with underscores, and "
  "exactly the first option of each flag is a default option.",
  ["inputs", "histories"],
  "All option names and build names over the stated alphabets and lengths, successive build names.",
  "Tests fix a few build names.",
  ["wip/genconfig/src/config_keyword_parser.py", KW],
  [("selection", "wip/genconfig/src/config_keyword_parser.py:selected_options")],
  ["selected_options", "selected_options_str", "is_default_option()", "ValueError", "SystemExit"],
  "2 flags with 2..3 options, build names of 1..3 (4 thorough) characters or 2 words out of 8.")

SETENV = "wip/setenvironment/src/setenvironment/SetEnvironment.py"

P("C18", "Each environment variable operation has exactly its documented effect",
  "An operation changes the variable it names and no other: set assigns, set_if_empty assigns only if the variable "
  "is missing or empty, append and prepend join with the path separator (or assign if there is nothing to join "
  "to), remove_substr removes every occurrence of the text, remove_path_entry removes the entries equal to the "
  "text, unset removes the variable, find_in_path assigns the location of an executable, assert_not_empty raises "
  "ValueError if the variable is missing or empty. `$VAR` and `${VAR}` in values stand for the value of the "
  "variable. An operation that is refused (unknown name, wrong types, an empty value where that is not allowed) "
  "raises and leaves the environment as it was.",
  ["inputs"],
  "All old values, new values, references and flags over the stated alphabets and lengths.",
  "Tests apply each operation to one or two values; separators, empty values and references combine freely.",
  [SETENV],
  [("operations", SETENV + ":envvar_op"), ("assignment", SETENV + ":envvar_set"),
   ("references", SETENV + ":envvar_op")],
  ["os.environ", "return value", "ValueError / TypeError"],
  "Old values of 0..6 and new values of 0..3 characters over small alphabets, any single character in between; see the evidence for bounds.")

P("C19", "The actions of a section are its operations in expansion order",
  "The actions collected for a section are its environment variable and module operations in `use` expansion "
  "order, each with name and value as written; `envvar-remove X` and `module-remove X` drop the operations on X "
  "seen so far and nothing else. Actions of one section are not affected by parsing others or parsing again, and "
  "after assigning another file the actions of the previous one are gone.",
  ["inputs", "programs", "histories"],
  "Every sequence of operations of the stated length, over linked sections, and every order of parsing.",
  "Tests parse fixed files; what a removal drops depends on everything before it, and what remains on the history.",
  [SETENV, CPE],
  [("handlers", SETENV + ":_helper_handler_common_envvar"), ("removal", SETENV + ":_handler_envvar_remove"),
   ("reset", SETENV + ":_reset_configparserdata")],
  ["actions", "parse_section()", "configparserenhanceddata"],
  "Up to 4 operations in one section or 2 (3 thorough) in each of two linked ones; names of 1..4 characters, any character in values.")

P("C20", "Applying a section performs exactly its actions, in order",
  "apply(section) carries out the actions of the section one after the other in the environment as it then is, "
  "and nothing else; values arrive as written, module commands get the arguments of the operation. If an action "
  "raises, those before it have taken effect and those after it have not; if a module command fails, apply "
  "raises (or returns the status of a failed command when the exception control level says so). A section that is missing or cannot "
  "be parsed applies nothing and raises, every time.",
  ["inputs", "programs", "fault_sequences"],
  "Every sequence of operations of the stated length with symbolic values, every position of a failing module command, every level.",
  "Tests apply fixed sections; quoting of values and stopping at a failure need unusual values and faults.",
  [SETENV],
  [("apply", SETENV + ":apply"), ("one action", SETENV + ":_exec_helper")],
  ["os.environ", "calls of the module command", "return value", "exceptions"],
  "Up to 3 operations; see the evidence for bounds.")

P("C21", "A generated script carries out the same actions as apply",
  "The Python script generated for a section, with or without its header of functions, has the same effect on the "
  "environment and issues the same module commands as applying the section, for every value; the bash script "
  "consists of exactly the commands for the actions, in order, with their arguments as shell words. The first "
  "line is the interpreter line if requested; writing to a file writes the same text. Generating changes nothing "
  "in the environment, and an unknown interpreter is refused without writing a file.",
  ["inputs", "programs"],
  "Every sequence of operations of the stated length, symbolic values, all combinations of header and interpreter options.",
  "Tests compare a few scripts with stored text; values with quotes or backslashes are not among them.",
  [SETENV],
  [("script", SETENV + ":generate_actions_script"), ("commands", SETENV + ":_gen_actioncmd_envvar")],
  ["text of the script", "os.environ after executing it", "file written"],
  "Up to 2 operations in linked sections; Python scripts are executed symbolically, bash scripts are compared word by word.")

MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"

P("C22", "The status of a module command tells whether it took effect",
  "module() returns 0 exactly if the command took effect, otherwise a non-zero status or an exception: with "
  "modulecmd, an error message or exit status of the command (returned as it is) leaves the environment as it was, "
  "and `_mlstatus = False` in its output means failure; with Lmod, an error message, a module that is not loaded "
  "after load or swap, one that is still loaded after unload, or a missing directory after use means failure. "
  "Arguments are passed on unchanged (a single argument is split at blanks), exactly one command is executed, and "
  "without a module command nothing is executed and FileNotFoundError is raised.",
  ["inputs", "fault_sequences", "configurations"],
  "All error messages, exit statuses and outputs over the stated alphabets and lengths, all loaded states, all "
  "arguments, sequences of 3 commands.",
  "Tests mock one outcome at a time; combinations of message, status and output, and what stays behind after a "
  "failure, are not covered.",
  [MH],
  [("modulecmd and Lmod variants", MH + ":module")],
  ["return value", "exceptions", "os.environ", "commands started"],
  "See the evidence for lengths; modulecmd, shell and Lmod are stand-ins whose behaviour is symbolic.")

LE = "wip/loadenv/load_env.py"

P("C23", "LoadEnv uses exactly the configuration files the user named",
  "Each of the three configuration files is the one given on the command line, relative to the current directory, "
  "or else the one named in load-env.ini, relative to the directory of that file. If load-env.ini has no "
  "`load-env` section, or a key is missing or empty, construction raises ValueError, whatever the command line "
  "says. Options and build name of the command line arrive unchanged, wherever the build name stands; arguments "
  "that are not a list are a TypeError.",
  ["inputs", "configurations"],
  "All states of the three keys, symbolic paths, all combinations of overrides and options, all build names of the "
  "stated lengths.",
  "Tests use one layout; relative paths, working directory and overrides multiply.",
  [LE],
  [("load-env.ini", LE + ":LoadEnv.parse_top_level_config_file"), ("command line", LE + ":LoadEnv.args")],
  ["args", "build_name", "exceptions"],
  "Paths of 1..2 symbolic characters, build names of 1..3; no symbolic links.")

P("C24", "LoadEnv answers, applies and writes the environment the build name names",
  "For every build name and host, system_name, parsed_env_name and the remaining build name are those the "
  "supported-systems and supported-envs files give, also after the build name was changed any number of times; a "
  "name that matches nothing or contradicts the host is refused each time. apply_env() and the matching-environment "
  "script carry out exactly the operations of that environment's section, and nothing is applied or written if "
  "environment-specs.ini lacks the section of the environment, contains an unknown operation anywhere, or a `use` "
  "link to a missing section; scripts written before stay as they are then. A failing module command is reported. "
  "The file announced to the shell is the one written. The remaining build name has no system name, in any case, no "
  "environment name and no alias left among its words.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "All build names of the stated number of words, all hosts, histories of questions and renamings, every position "
  "of a failing module command, several kinds of invalid files.",
  "Tests ask one question per object; stale answers and half-validated files need histories.",
  [LE],
  [("system", LE + ":LoadEnv.system_name"), ("environment", LE + ":LoadEnv.parsed_env_name"),
   ("apply", LE + ":LoadEnv.apply_env"), ("script", LE + ":LoadEnv.write_load_matching_env")],
  ["system_name", "parsed_env_name", "env_stripped_build_name", "os.environ", "files written", "exit status"],
  "Build names of up to 3 (4 thorough) out of 10 words; see the evidence.")

GC = "wip/genconfig/gen_config.py"

P("C25", "GenConfig uses and passes on the files and arguments the user named",
  "Each of the five configuration files is the one given on the command line, relative to the current directory, "
  "or else the one named in gen-config.ini, relative to the directory of that file. If a section or key is missing, "
  "a value is empty or names no existing file, this is a ValueError. The arguments handed to LoadEnv make it use "
  "the same build name, force flag and files, however the hand-over takes place (in memory or by the saved "
  "arguments file); --ci-mode is handed on to it too.",
  ["inputs", "configurations"],
  "All states of two keys in all arrangements of the sections, overrides, symbolic build names.",
  "Tests use one layout and compare argument lists literally.",
  [GC],
  [("gen-config.ini", GC + ":GenConfig.gen_config_config_data"), ("command line", GC + ":GenConfig.args"),
   ("hand-over", GC + ":GenConfig.load_env_args")],
  ["args", "load_env_args", "load_env.args", "file of --save-load-env-args", "exceptions"],
  "File names of 1 symbolic character, build names of 1..3; paths without blanks and symbolic links.")

P("C26", "A build name yields its complete configuration, and only that one is written",
  "The complete configuration is the matched environment followed by one option of each single-choice flag and the "
  "options of each multi-choice flag, in the order of supported-config-flags.ini, defaults filled in; contradictory "
  "or unknown names are refused. Unless every section of config-specs.ini that is not a supporting section has such "
  "a name, nothing is written; validation leaves build name, force flag and answers as they were. The CMake "
  "fragment, the options for the shell and the listings contain the data of exactly that configuration; an "
  "existing fragment file is replaced only after consent, and otherwise left unchanged.",
  ["inputs", "histories", "configurations"],
  "All build names of the stated number of words, pairs of 14 section names in the specifications, symbolic "
  "replies to prompts and option values.",
  "Tests use one specification file and a few build names; validation state and prompts interact with answers.",
  [GC, "wip/genconfig/src/config_keyword_parser.py"],
  [("complete configuration", GC + ":GenConfig.complete_config"),
   ("validation", GC + ":GenConfig.validate_config_specs_ini"),
   ("fragment", GC + ":GenConfig.write_cmake_fragment"), ("program", GC + ":main")],
  ["complete_config", "generated_config_flags_str", "fragment file", "prompts", "exit status"],
  "Build names of up to 3 (4 thorough) out of 10 words; setprogramoptions is not in this repository and is a stand-in.")

FM = "wip/keywordparser/keywordparser/FormattedMsg.py"

P("C27", "Messages show every line given, and refusals name what was refused",
  "A message box consists of a border, every line of the message in order (the first after the kind of message), "
  "every line of the extras in order, and the border again, without trailing blanks; a list message has one line "
  "for each item, in order, between message and extras. The refusals of the keyword, environment, configuration "
  "flag and system parsers list exactly the offending values (duplicates, blanks or underscores, names of keys, "
  "excluding options, several systems, badly named sections with their proper names), and the listings of supported "
  "environments and flags show every one of them with all aliases and options.",
  ["inputs"],
  "All lines, items and kinds over the stated alphabets and lengths; all combinations of valid and offending values.",
  "Tests compare whole messages for one or two tables.",
  [FM, "wip/keywordparser/keywordparser/KeywordParser.py", "wip/loadenv/loadenv/EnvKeywordParser.py",
   "wip/genconfig/src/config_keyword_parser.py"],
  [("box", FM + ":get_formatted_msg"), ("list", FM + ":get_msg_for_list"),
   ("environments", "wip/loadenv/loadenv/EnvKeywordParser.py:get_msg_showing_supported_environments"),
   ("flags", "wip/genconfig/src/config_keyword_parser.py:get_msg_showing_supported_flags")],
  ["return values", "text of SystemExit and ValueError"],
  "Up to 2 (3) message lines, 2 extra lines and 3 items of 0..2 characters; tables of up to 4 values.")

P("C28", "All accessors present the same data, including what was set by hand",
  "has_section, has_option, get, [], options, items, iteration, keys, sections and len agree with each other and "
  "with the expansion of the sections, whichever is used first; a missing section or option is a KeyError (False "
  "from has_section, and from has_option for a missing option). What set() stored is presented by every lookup from "
  "then on, in sections of the file as well as in new ones (iteration, keys, sections and len go on listing exactly "
  "the sections of the file); add_section() leaves an existing section as it is unless "
  "forced, and a forced one is empty. sections(parse) parses what is not yet parsed, or everything anew if 'force'; "
  "other values of the argument are refused.",
  ["inputs", "histories"],
  "All small section structures, all orders of access, histories of edits and accesses.",
  "Tests call each accessor once on fixed files; agreement after edits is about sequences.",
  [CPE],
  [("accessors", CPE + ":ConfigParserEnhancedData"), ("lazy parse", CPE + ":_parse_owner_section")],
  ["return values", "KeyError", "handler calls"],
  "2 or 3 sections with up to 3 entries; 2 or 3 edits.")

P("C29", "Printed listings show what is there and hide what was not asked for",
  "pretty_print_envvars prints each variable of the environment once, with its value if and only if no filter is "
  "given or the name contains one of the filter's texts, and leaves the others out if only matching ones are wanted; "
  "pretty_print_actions prints one line for each action of the section, in order, with operation, name and value, "
  "and carries out none of them; get_known_operations names exactly the operations a parse dispatches. Wrong "
  "argument types and missing sections are refused and show nothing.",
  ["inputs", "programs"],
  "All names, values and filters of the stated lengths; all pairs of operations; all pairs of handler names.",
  "Tests print fixed environments; a value shown against the filter depends on names that contain each other.",
  [SETENV, CPE],
  [("environment", SETENV + ":pretty_print_envvars"), ("actions", SETENV + ":pretty_print_actions"),
   ("operations", CPE + ":get_known_operations")],
  ["stdout", "return values", "exceptions"],
  "2 variables, up to 3 filter texts; 2 or 3 actions.")

P("C30", "The shell scripts leave the caller with the selected environment",
  "Sourcing load-env.sh (gen-config.sh) loads exactly the environment the Python program selected into the calling "
  "shell, removes temporary files and helper functions, and reports a failure of the program as its own.",
  ["inputs", "fault_sequences"], "All arguments, all failures of the program called.",
  "There is one test script with mocked programs.",
  ["wip/loadenv/load-env.sh", "wip/genconfig/gen-config.sh"],
  [("sourced script", "wip/loadenv/load-env.sh")], ["shell environment"], None)
NOT_APPLICABLE.append(("C30", "The behaviour is that of bash scripts; no solver encoding of bash (expansion, "
                       "sourcing, traps, functions) is available or within reach, and running them on samples would "
                       "be another technique. The Python side of the hand-over is C24/C26."))
