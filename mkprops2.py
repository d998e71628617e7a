prop("C08", "Operators compute exact results, or report an error",
 "Arithmetic, concatenation, repetition and subtraction give exactly the mathematical result for their operands (floats: the IEEE result), the same in infix, named and partially applied form. "
 "A result that does not fit a 64-bit integer, a division by zero and a combination of kinds the operator does not have are reported as errors; nothing wraps, truncates or crashes.",
 ["inputs"], "every pair of operands of every kind, with integers at the edges of the range",
 "Tests add and multiply a few small numbers; overflow, mixed kinds and division edges are unlimited.",
 ["src/binary/init/operator_module.rs", "src/expr.rs"], [("Add/Sub/Mul/Div/Rem for Expression", "src/expr.rs"), ("operator builtins", "src/binary/init/operator_module.rs")])

prop("C09", "Comparisons form one consistent order, and logic follows truthiness",
 "`==` is an equivalence on data and `!=` is its negation; `<`, `<=`, `>`, `>=` describe one transitive order of the values of a kind and are false between kinds. "
 "`!`, `&&`, `||` and `if` all use the same rule for which values count as true.",
 ["inputs"], "every pair and triple of values of every kind",
 "The laws range over all triples of values; tests compare a few numbers.",
 ["src/expr.rs", "src/binary/init/operator_module.rs"], [("PartialEq / PartialOrd for Expression", "src/expr.rs"), ("is_truthy", "src/expr.rs")])

prop("C10", "Functions keep the values they saw; macros use the caller's variables",
 "What a function computes depends only on its arguments and the values its free variables had when it was defined: no later definition, rebinding or variable of a caller changes it, and calling it changes no variable of the caller. "
 "A macro works on the variables of the place where it is used, and its definitions stay there.",
 ["programs", "histories"], "every function body and every history of definitions and calls around it",
 "Captures matter only when names are rebound between definition and call; tests never do that.",
 ["src/expr.rs", "src/env.rs"], [("Lambda evaluation and capture (get_used_symbols)", "src/expr.rs eval_mut"), ("fork / define", "src/env.rs")])

prop("C11", "Programs evaluate as the language prescribes",
 "Every program of definitions, blocks, conditionals, loops, functions, macros, operators, error handling and output gives the result, prints the text and leaves the variables that the language prescribes: everything is evaluated exactly once and in order, the chosen branch only, loop bodies once per element, block-local definitions vanish as prescribed. "
 "An error stops evaluation at the place where it arises.",
 ["programs"], "every program over the core language",
 "Tests evaluate single expressions; the interplay of constructs is unlimited.",
 ["src/expr.rs", "src/env.rs"], [("eval_mut", "src/expr.rs"), ("Environment", "src/env.rs")])

prop("C12", "Applying a function to its arguments at once or one by one is the same",
 "A function of n parameters gives the same result however its arguments are supplied: all at once, one by one, in any grouping, through variables, and through the combinators for currying, applying, flipping and composing, whatever other variables the caller has. "
 "Every partial application is a value that can be used any number of times without affecting another use.",
 ["programs"], "every function of one to four parameters, every grouping of its arguments, every use order",
 "Tests apply one-parameter functions.",
 ["src/expr.rs", "src/binary/init/fn_module.rs"], [("Apply in eval_mut", "src/expr.rs"), ("curry, apply, flip, compose", "src/binary/init/fn_module.rs")])

prop("C13", "Code run directly, quoted, evaluated, imported or included means the same",
 "A program means the same whether it is run directly, or as a quote given to eval, or parsed from text, or read from a file. "
 "eval, include and running a quote see and change the caller's variables as each of them promises: exec and include bind names in the caller, eval and import do not.",
 ["programs"], "every program and prelude, every way to run code, from any directory",
 "No test evaluates quoted code or reads a script.",
 ["src/binary/init/mod.rs", "src/binary/init/sys_module.rs", "src/expr.rs"], [("eval, exec, import, include", "src/binary/init/mod.rs"), ("Quote", "src/expr.rs")])

prop("C14", "Unbounded recursion is reported as an error, never a crash",
 "A program that recurses without end, through any chain of functions, macros, quotes, loops, handlers and builtins, ends with the recursion error and the shell keeps working; it never overflows the machine stack. "
 "Finite recursion of moderate depth gives its result.",
 ["programs"], "every chain of constructs that calls itself again",
 "Tests have one or two small recursive functions; stack use differs per construct.",
 ["src/expr.rs", "src/stack.rs"], [("MAX_RECURSION_DEPTH", "src/expr.rs"), ("stack growth", "src/stack.rs")])

prop("C15", "Every error reaches the nearest handler with its code, message and source",
 "An error that arises anywhere is delivered to the nearest enclosing handler, once, with the code of its kind, its message and the expression it arose in; the handler's result takes the place of the guarded expression. "
 "An expression without an error keeps its value and its handler is not called; what ran before the error stays done and nothing after it runs.",
 ["programs", "fault_sequences"], "an error of every kind at every place of a program, under any nesting of handlers",
 "Tests raise no errors.",
 ["src/binary/init/err_module.rs", "src/error.rs", "src/expr.rs"], [("err@try", "src/binary/init/err_module.rs"), ("Error::code", "src/error.rs")])

prop("C17", "List functions give exactly the list, element or number they describe",
 "Every function of the list library gives exactly what its name says, for all lists and arguments: nothing is lost, duplicated or reordered, indices are exact at both ends, and wrong arguments are errors. "
 "The usual laws hold: head and tail rebuild the list, take and drop split it, reversing twice, zipping and unzipping and joining chunks give it back.",
 ["inputs"], "every list, index, count and function, in direct and partially applied form",
 "Tests call no list function.",
 ["src/binary/init/list_module.rs"], [("the list module", "src/binary/init/list_module.rs")])

prop("C18", "Map functions give exactly the map, keys or values they describe",
 "Every function of the dict library works on exactly the keys and values of its argument: insertion and removal change one key and leave the given map as it was, keys, values and items agree in order and number. "
 "Maps built in different orders from the same pairs are equal.",
 ["inputs"], "every map of any keys and values, every key",
 "Tests call no map function.",
 ["src/binary/init/dict_module.rs"], [("the dict module", "src/binary/init/dict_module.rs")])

prop("C19", "String functions work exactly, on every unicode text",
 "Every function of the string library gives exactly the text, list, number or answer its name says, for every unicode text and every argument; nothing panics inside a character. "
 "Splitting and joining, lines, characters and case changes obey their laws.",
 ["inputs"], "every unicode text, separator, pattern and count",
 "Tests call no string function.",
 ["src/binary/init/string_module.rs"], [("the string module", "src/binary/init/string_module.rs")])

prop("C20", "Mapping, filtering, folding and looping visit each element once, in order",
 "Mapping, filtering and reducing give exactly what applying the function to each element once, in list order, prescribes, and equal the corresponding loop; a failing application makes the whole call fail. "
 "This holds for named and anonymous functions, partial applications and builtins, in every calling form.",
 ["programs"], "every list and every function, in every calling form",
 "Tests map no function over a list.",
 ["src/binary/init/fn_module.rs", "src/binary/init/list_module.rs"], [("map, filter, reduce", "src/binary/init/fn_module.rs"), ("foldl, foldr", "src/binary/init/list_module.rs"), ("For", "src/expr.rs")])

prop("C21", "Math functions are exact on integers and accurate on floats",
 "Integer functions of the math library give exactly the mathematical result, and an error if it does not fit; functions on reals agree with the mathematical function to floating-point accuracy (the factorial of a float to seven digits). "
 "Arguments of the wrong kind are errors and no argument crashes or wraps.",
 ["inputs"], "every integer, including the ends of the range, and floats of every magnitude",
 "Tests call no math function.",
 ["src/binary/init/math_module.rs"], [("the math module", "src/binary/init/math_module.rs")])

prop("C22", "Inserting, removing and indexing act like a plain list, map or text",
 "Over any history of insertions, removals, lookups and lengths, lists, maps and strings behave like a plain sequence, map and text. "
 "Values are immutable: an operation gives a new value, and every earlier one still has its content.",
 ["histories"], "every history of operations on a value, with any keys and positions",
 "Tests do no sequence of updates.",
 ["src/binary/init/mod.rs", "src/expr.rs"], [("insert, remove, len, @", "src/binary/init/mod.rs"), ("Index", "src/expr.rs")])

prop("C34", "Random draws stay in range and can produce every outcome",
 "A random integer lies within the given bounds, a random choice is an element of the list and a shuffle is a rearrangement of it that leaves the list itself as it was. "
 "Every outcome is possible; an empty range or list is an error, not a crash.",
 ["inputs", "histories"], "every range and list",
 "Tests draw no random number.",
 ["src/binary/init/rand_module.rs"], [("the rand module", "src/binary/init/rand_module.rs")])

prop("C27", "Parsed JSON and TOML hold exactly the data of the document",
 "Parsing a JSON or TOML document gives exactly the data it denotes: every key, text, number, truth value, date, list and table, in order and at its place, however the document is spelled. "
 "A text that is not a document is an error, never another value or a crash.",
 ["inputs"], "every JSON and TOML document in every spelling, and every damaged document",
 "Tests parse no data format.",
 ["src/binary/init/parse_module.rs"], [("json_to_expr", "src/binary/init/parse_module.rs"), ("toml_to_expr", "src/binary/init/parse_module.rs")])

prop("C28", "Displaying a value shows all of its content, at every width",
 "Texts and plain values are displayed exactly, and the table or line that shows a list or map holds every element, key and value, in order, whatever the width of the terminal. "
 "Every value and every program tree can be displayed without a crash, and all ways of printing show the same text.",
 ["inputs"], "every value, nested in any way, at every width",
 "Tests display no nested value; layout depends on lengths and widths.",
 ["src/expr.rs", "src/binary/init/mod.rs"], [("Display for Expression", "src/expr.rs"), ("print, println, debug, str", "src/binary/init/mod.rs")])

prop("C29", "Widgets have exactly the size asked for, and join without gaps",
 "A widget is a box of exactly the given width and height with its title in the middle of the top, showing the beginning of its text, as much as fits. "
 "Joining widgets puts their lines side by side or below one another unchanged, and widgets whose sizes do not match are refused.",
 ["inputs"], "every title, text and size, and every nest of joins",
 "Tests create no widget.",
 ["src/binary/init/widget_module.rs"], [("create", "src/binary/init/widget_module.rs"), ("joinx, joiny", "src/binary/init/widget_module.rs")])

prop("C30", "Styling changes only how a text looks; wrapping only its line breaks",
 "Any nest of styles and links shows exactly the text it is given, in exactly these styles, leading to exactly that place, and leaves nothing switched on; stripping removes exactly the terminal's sequences and gives back the text. "
 "Wrapped text has no line longer than asked for, keeps every word and every line break, and breaks lines only where it must.",
 ["inputs"], "every text, every nest of styles and links, every terminal sequence, every width",
 "Tests style no text.",
 ["src/binary/init/fmt_module.rs", "src/bin.rs"], [("fmt functions", "src/binary/init/fmt_module.rs"), ("strip_ansi_escapes", "src/bin.rs")])

prop("C31", "The environment binds, finds and removes exactly the names it is told to",
 "After any history of definitions and removals, a name has the value last bound to it in the environment or else in its nearest parent, and is undefined otherwise; copies are independent. "
 "The language's ways to bind, unbind, test and list variables agree with this, and definitions inside functions and eval do not leave them.",
 ["histories"], "every history of binding, removing, copying and looking up, through the library and the language",
 "Tests bind a few names once.",
 ["src/env.rs", "src/binary/init/sys_module.rs", "src/binary/init/mod.rs"], [("Environment", "src/env.rs"), ("set, unset, defined?, env", "src/binary/init/sys_module.rs"), ("unbind, vars", "src/binary/init/mod.rs")])

prop("C33", "Log messages appear exactly when their level is enabled, line by line",
 "A message of a level is printed if the log level is at least that level, and otherwise nothing is printed. "
 "It is printed completely, every line of it on a line of its own with the prefix of its level, and the level always is what it was last set to.",
 ["histories"], "every history of level changes and messages",
 "Tests log nothing.",
 ["src/binary/init/log_module.rs"], [("log functions", "src/binary/init/log_module.rs")])

prop("C36", "Console output puts text and cursor exactly where asked",
 "Writing text at a position shows each of its lines from that column on, one row below the other, and leaves the cursor where it was. "
 "Cursor movements, saved positions, clearing and screen modes have exactly their effect.",
 ["histories"], "every history of console operations",
 "Tests use no console function.",
 ["src/binary/init/console_module.rs"], [("write, cursor, clear, mode", "src/binary/init/console_module.rs")])

prop("C16", "No function of the library crashes, whatever it is applied to",
 "Applying any function of the library to any arguments gives a value or an error: never a crash, an overflow or a hang, however few, many, large or ill-suited the arguments are. "
 "The value or error can be displayed.",
 ["inputs"], "every library function, applied to every number and kind of arguments, directly, partially, in a pipe or in a handler",
 "Tests call few functions, with arguments that fit.",
 ["src/binary/init/mod.rs", "src/binary/init/list_module.rs", "src/binary/init/string_module.rs", "src/binary/init/math_module.rs", "src/binary/init/fs_module.rs"], [("every builtin", "src/binary/init/mod.rs"), ("init", "src/binary/init/fs_module.rs")])

prop("C23", "A program gets exactly its arguments, directory and variables",
 "A program that is called receives exactly the texts of its arguments, lists spread out and None left out, runs in the shell's current directory and sees the variables of the environment. "
 "Its output appears between what is printed before and after it, whatever its exit status is; a program that is missing or may not be run is an error.",
 ["inputs", "histories"], "every argument and variable, every history of definitions and directories, every way to call a program",
 "Tests run no program.",
 ["src/expr.rs", "src/binary/init/operator_module.rs", "src/binary/init/os_module.rs"], [("Apply of a symbol or string", "src/expr.rs"), ("cd", "src/binary/init/os_module.rs")])

prop("C24", "Pipelines pass every byte on, whatever the size, and always end",
 "Each stage of a pipeline gets exactly what the stage before gave: programs the bytes, functions the text or, if it is no text, the bytes. "
 "This holds for every amount of data, and also when a program reads only part of its input; the pipeline ends when its programs do.",
 ["inputs", "schedules"], "every mix of programs, values and functions, every size of data, programs that read and write in any pattern",
 "Tests run no pipeline.",
 ["src/binary/init/operator_module.rs"], [("pipe_builtin", "src/binary/init/operator_module.rs"), ("expr_to_command", "src/binary/init/operator_module.rs")])

prop("C25", "File functions do exactly what they say, relative to the current directory",
 "Every file function reads or changes exactly the files its paths name, relative to the shell's current directory, and nothing else: never files behind a link that is removed. "
 "What is written is read back exactly, nothing existing is overwritten by a copy or move, and a failing operation reports an error and leaves all files as they were.",
 ["histories"], "every history of file operations on every tree",
 "Tests touch no file.",
 ["src/binary/init/fs_module.rs", "src/binary/init/os_module.rs"], [("fs functions", "src/binary/init/fs_module.rs"), ("cd", "src/binary/init/os_module.rs")])

prop("C26", "Redirection writes and reads exactly the bytes of a value or pipeline",
 "Redirecting into a file makes its content exactly the bytes of the value or of the program's output, appending adds exactly them at its end, and reading from a file hands its whole content to a function or program. "
 "No other file changes, and a redirection that is not possible is an error.",
 ["histories"], "every history of redirections, every content and size",
 "Tests redirect nothing.",
 ["src/binary/init/operator_module.rs", "src/parser.rs"], [(">>, >>>, <<", "src/binary/init/operator_module.rs"), ("parse_expression", "src/parser.rs")])

prop("C32", "A script file, -x and the interactive loop run a program alike",
 "The same statements have the same output, errors, results and effects when they are run from a file, given to -x or typed in. "
 "A file reports no result, -x reports the last, and the interactive loop reports every one, goes on after errors, keeps its variables and collects lines until they form a program.",
 ["inputs", "histories"], "every session of statements in every mode and combination of modes",
 "Tests never start the shell.",
 ["src/bin.rs", "src/binary/init/mod.rs"], [("run, repl, run_file", "src/bin.rs"), ("report", "src/binary/init/mod.rs")])

prop("C37", "Start-up runs the prelude first, and writes one only when told to",
 "The interactive shell runs the prelude of the home directory before it reads a line, goes on with what was defined when the prelude fails or cannot be read, and never changes a prelude that exists. "
 "Where there is none it asks, and writes the default prelude exactly if the answer is y; a script or -x alone neither runs a prelude nor asks.",
 ["histories"], "every prelude, answer and sequence of starts",
 "Tests never start the shell.",
 ["src/bin.rs", "src/.default-dune-prelude"], [("run", "src/bin.rs")], [("~/.dune-prelude", "the prelude, run at each interactive start")])

prop("C38", "Leaving the shell happens at once, with exactly the status given",
 "Exit ends the shell at once with the status given (modulo 256), wherever it is called: in functions, loops, handlers, operands, pipes, callbacks or evaluated code, in a script, -x, the prelude or a typed line. "
 "Everything printed before is written out and nothing after it runs; an argument that is no integer is an error like any other.",
 ["programs", "inputs"], "every program around a call of exit, every status, every mode",
 "A test that exits ends the tests.",
 ["src/binary/init/os_module.rs", "src/bin.rs"], [("exit", "src/binary/init/os_module.rs"), ("quit", "src/binary/init/mod.rs")])

prop("C39", "The history file keeps every program typed, in order, across sessions",
 "Every program that is typed is in the history file as soon as it runs, whole and unchanged, after those of earlier sessions and in the order typed, even when the shell is killed or exits while running it. "
 "Left out are only empty lines, programs that start with a space, repetitions of the one before, and the oldest when there are more than a hundred.",
 ["histories", "crash_points"], "every sequence of sessions, programs over one or several lines, and ends of the shell",
 "Tests never start the shell.",
 ["src/bin.rs"], [("repl", "src/bin.rs"), ("get_history_path", "src/bin.rs"), ("new_editor", "src/bin.rs")], [("~/.dune-history", "the programs typed so far")])

prop("C40", "Completion offers exactly the files that fit, and keeps the rest of the line",
 "Completing a path offers exactly the entries of its directory whose names begin with what is typed, relative to the shell's current directory, and nothing where there is no such directory. "
 "Accepting an offer puts its name, with a slash for a directory, in place of what is typed of it and changes nothing else of the line, wherever the cursor is.",
 ["inputs"], "every tree of files, line, cursor and current directory",
 "Tests complete nothing.",
 ["src/bin.rs"], [("Completer for DuneHelper", "src/bin.rs")])

prop("C41", "An interrupt ends the running program, never the shell or what is typed",
 "An interrupt that comes while a typed program runs ends at most the programs it called: the shell goes on with that statement and the next, with all its variables, and every later line is read once, in order, and put together to the same programs. "
 "What input reads are exactly the next lines, which are not run, and the lines after them are; lines that are not text are skipped, a function that reads the keyboard without there being one is an error, and a shell whose input cannot be read ends.",
 ["schedules", "histories", "inputs"], "every session, moment of interruption, place of input and kind of standard input",
 "Tests interrupt nothing; whether two loops share the typed lines depends on the schedule.",
 ["src/bin.rs", "src/binary/init/mod.rs", "src/binary/init/console_module.rs"], [("set_handler in run", "src/bin.rs"), ("readline, repl", "src/bin.rs"), ("input", "src/binary/init/mod.rs"), ("keyboard", "src/binary/init/console_module.rs")])

prop("C42", "At a terminal, the line that is seen is run, and keys read are those pressed",
 "However a line is typed at a terminal (edited with any key, pasted, recalled, completed, put together from several lines, or abandoned with Ctrl-C), the program that runs is exactly the text the screen shows after the prompt, with the cursor where the next key acts; the prompt is the one the prompt function gives. "
 "Its output, results and errors are shown as at that width, Ctrl-C ends only what runs, and read-key, read-line, read-password and input give exactly what is pressed, passwords unseen.",
 ["histories", "inputs"], "every sequence of keys, prompt, width of the terminal, and program",
 "Tests have no terminal.",
 ["src/bin.rs", "src/binary/init/console_module.rs", "src/binary/init/mod.rs"], [("readline, repl, Highlighter, Hinter, Completer for DuneHelper", "src/bin.rs"), ("keyboard, width, height", "src/binary/init/console_module.rs"), ("input", "src/binary/init/mod.rs")])

prop("C43", "Names that are not text never stop the shell, and hide nothing else",
 "Wherever the name of a file or directory is not UTF-8 (the current or home directory, the shell's own program, a directory of PATH, a target of a link, an entry), the shell starts and works: everything next to it is read, listed and changed as usual, programs run in the right directory, and copying, moving and removing keep such names byte for byte. "
 "Only what would need the name as text (cd into it, its canonical path) is an error, which leaves everything as it was.",
 ["histories", "inputs"], "every tree with such names, every history of file operations, every place for such a name at start-up",
 "Tests use no files; names made by other programs are not text rarely, but then everywhere.",
 ["src/binary/init/fs_module.rs", "src/binary/init/os_module.rs", "src/binary/init/sys_module.rs", "src/binary/init/shell_module.rs"], [("get", "src/binary/init/fs_module.rs"), ("list_directory, get_dir_tree, copy_path", "src/binary/init/fs_module.rs"), ("cd", "src/binary/init/os_module.rs"), ("path, prelude", "src/binary/init/shell_module.rs")])

prop("C44", "What the shell says of its surroundings is true: time, places, system, itself",
 "The current time is told with the right year, month, day, hour and texts in the local time zone, at every moment; sleeping takes as long as asked for and no time for negative numbers. "
 "The directories of the user, the name, family and version of the system, and the places of the shell's program and prelude are those the system gives.",
 ["inputs"], "every moment from 1970 to 2199, every time zone, every length of sleep, every configuration of directories and system",
 "Tests cannot choose the time or the system, and ask for neither.",
 ["src/binary/init/time_module.rs", "src/binary/init/fs_module.rs", "src/binary/init/os_module.rs", "src/binary/init/shell_module.rs", "src/bin.rs"], [("now, sleep", "src/binary/init/time_module.rs"), ("dirs", "src/binary/init/fs_module.rs"), ("get_os_name, get_os_family", "src/bin.rs"), ("path, prelude", "src/binary/init/shell_module.rs")])

prop("C45", "The scripts the shell ships with run anywhere, and what they define is right",
 "The default start-up script and the tour of the first start run to their end without an error, at every time, with or without a terminal, secrets file or weather key, and the line typed after them is run. "
 "The calendars, weekdays, banner, weather, shrew boxes, file words (include, use, open, ~, $) and help they define give the right result for every date, text, width and file, and what the secrets set stays set.",
 ["inputs", "configurations"], "every date from the year 1 to 9999, text, width of the terminal, secrets file, answer and file",
 "Tests run neither script.",
 ["src/.default-dune-prelude", "src/.intro-dune-prelude", "src/bin.rs"], [("make-calendar, day-of-week, shrewsay, dashboard", "src/.default-dune-prelude"), ("intro, report, help", "src/.intro-dune-prelude")])

prop("C46", "The cost of running grows no faster than the program, its data and its calls",
 "Running a program takes time and memory that grow at most polynomially with the nesting of its expressions and values, the number of functions and the mentions of earlier ones in them; a loop or recursion costs in proportion to its turns and what each of them does. "
 "Every part is evaluated exactly as often as the language says: an argument, operand, condition, element or bound name once for each time it is reached, however deeply such forms are nested.",
 ["programs"], "every nest of forms, chain of definitions, loop and value",
 "A part evaluated twice, or a copy made once too often, is invisible in a small program and fatal in a nested one.",
 ["src/expr.rs", "src/env.rs", "src/binary/init"], [("Expression::eval_mut", "src/expr.rs"), ("Environment", "src/env.rs")])
