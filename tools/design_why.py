WHY = {
"C01": "The generated file's structure (entries of each section, link targets, keys, values) is symbolic; the options "
"of every section are compared with the reference expansion in `lib.py`, including their order. The tests cannot "
"reach the interplay of diamonds, repeated links and overriding keys in all orders.",
"C02": "All link graphs; the run must end within the step budget (a counterexample is confirmed natively by a time "
"limit), exactly the back links are announced, and everything else takes effect.",
"C03": "Keys, values and names are symbolic texts over alphabets that contain each character the code treats "
"specially (quotes, delimiters, comment characters, blanks, letters of both cases, multi-byte characters).",
"C04": "A class with public, private and ambiguous handlers; the key is symbolic, a recorder stores what each handler "
"is given, and the reference decides by the word rule alone.",
"C05": "Hooks and handlers are recorders; the sequence of calls, the shared data object and the result are compared "
"with the life cycle rule, over structure, flags, return codes, levels and consecutive requests.",
"C06": "A history of queries, then a query: its answer must be the one a fresh object gives. This covers every kind "
"of stale cache, partial state after a failed parse and state shared between objects.",
"C07": "Lists of files with symbolic contents and faults (missing, malformed) at any position, each accessed twice.",
"C08": "Reference expansion with the default section put in front; handler calls are counted.",
"C09": "The text of `unroll_to_str`/`write` is parsed again by a second object with the same settings and compared "
"section by section with the first.",
"C10": "The reference knows which option of the expansion has a handler; result, exception and reported keys follow.",
"C11": "All event types, levels and flags against the table of the documentation.",
"C12": "Output against the rule; and the same history with debug level 0 and any other level must give the same "
"answers, calls and errors.",
"C13": "A reference state machine of one property (default, converted, validated, per object) against operation "
"sequences; validators and converters are symbolic functions (they may accept, refuse or raise at any point).",
"C14": "Values built from symbolic lines; the reference splits at `#` and strips.",
"C15": "Names, aliases and build name are symbolic texts that contain `.` and `+` (regular expression characters).",
"C16": "Reference: systems in file order whose patterns match (Python's `re` is the oracle for the pattern "
"language, interpreted symbolically), the words of the build name, force.",
"C17": "Options and build names symbolic, or words out of a table; histories of two build names.",
"C18": "`envref.py` gives the environment after each operation; old values, values, references symbolic.",
"C19": "`setenv.py` computes the actions from the structure; the list of dictionaries is compared completely.",
"C20": "Environment and module calls after apply against the reference applied to the reference actions; a module "
"command may fail at any position.",
"C21": "The Python script is executed symbolically, its effects compared with the reference of apply; a bash script "
"is split by `shlex` into words and compared with the words of the commands.",
"C22": "The process (exit status, stdout, stderr), the shell and Lmod are stand-ins with symbolic behaviour; the "
"reference says which combination is a success.",
"C23": "Three keys in all states; the paths in the result are compared with paths computed from the layout.",
"C24": "Questions, renamings, apply and scripts against `loadref.py` and the reference of C20/C21; invalid "
"specification files and failing modules are inputs. `main` is run as a whole.",
"C25": "As C23 for five keys; the arguments handed over are given to the real LoadEnv, whose view is compared.",
"C26": "`genref.complete` computes the name of the configuration from flags and environment tables; files, prompts "
"and exit codes follow. The stand-in of setprogramoptions lists the options of the section it is asked for, so a "
"wrong section is visible.",
"C27": "Boxes are taken apart again and compared with the lines given; refusals of all parsers are provoked by "
"symbolic tables and must list exactly the culprits.",
"C28": "Reads against the reference expansion in every order; a model dictionary follows the edits.",
"C29": "Names, values and filters symbolic; each line is taken apart again. `get_known_operations` against the "
"handler names put into the class, and against what a parse then dispatches.",
}
