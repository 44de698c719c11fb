"""Writes /verif/properties.jsonl (kept as a script only to avoid hand-editing long JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
YUP, GEN, CFG, INI = "pp/yup.py", "pp/yugen.py", "pp/yuconfig.py", "__init__.py"
T22 = "The 22 tests only call the parser or the evaluator on fixed texts; "

prop("C01", "An existing output file is never lost, and a failed run never touches it",
 "When a translation is about to write an output file that already exists, the existing file is first kept, whole, under the same name plus '.bak' (replacing an older '.bak'), and only then is the new output written. "
 "If keeping it fails, the new output is not written. "
 "A translation that fails - because the text does not parse, does not evaluate, or does not reduce to plain text - neither writes, renames nor deletes the output file or its '.bak'; an unreduced result goes to a separate '.ast' file.",
 ["crash_points", "inputs", "fault_sequences"],
 "Every execution path of a file translation (command line and Python package), every file-system failure on it, and every input text.",
 T22 + "no test writes a file, and the guarantee is about the order of file operations on every path including faulty ones.",
 [YUP], [("file-system effects of a translation", "pp/yup.py:_pp_stream"), ("backup", "pp/yup.py:shell_backup"), ("write", "pp/yup.py:shell_savetofile")])

prop("C02", "Success means the output was written; the exit status counts failed files",
 "A file is reported as successfully translated (the result returned to a Python caller, or the OK line and the status of the command line) only if its text was evaluated to plain text and that text was written without error to the output file that is named in the report. "
 "With files on the command line the process exit status is four times the number of files whose translation failed, in every way of starting the program (console script, 'python -m' on the package or on its inner package, running the script itself).",
 ["inputs", "fault_sequences", "histories"],
 "Every list of input files, every combination of failing and succeeding files and of write errors, every entry point.",
 T22 + "none starts the command line, looks at the exit status or makes a write fail.",
 [YUP, "__main__.py", "pp/__main__.py"], [("command line loop", "pp/yup.py:cli"), ("translation of one file", "pp/yup.py:_pp_file"), ("console script", "__main__.py:main"), ("module run", "pp/__main__.py")])

prop("C03", "A failing text fails alone, and never silently",
 "An error raised while a text is being parsed or evaluated, a result that is not plain text, and an operating-system or decoding error while its file is read or its output written never escape from the translation of that text: the translation returns failure and the next file, or the next interactive text, is still processed. "
 "Every such failure puts at least one message of level ERROR or higher into the log, whatever the tracing, traceback and quiet settings are.",
 ["inputs", "fault_sequences", "configurations"],
 "Every exception the parser, the evaluator or the file operations can raise; every setting of tracing, traceback and verbosity.",
 T22 + "they observe the parser's and evaluator's results on good input, never the shell around them.",
 [YUP], [("containment of parser and evaluator errors", "pp/yup.py:_pp"), ("containment of file errors", "pp/yup.py:_pp_stream"), ("opening the input", "pp/yup.py:_pp_file")])

prop("C04", "A previously generated output is reused only while it is up to date",
 "In the Python package, the macro expansion of a source file is skipped - and the existing output file's content is returned instead - only if re-processing is not forced by the configuration and the modification time of the output file is strictly later than that of the source file and of every file listed as a dependency in the configuration. "
 "If any of these times cannot be read, the file is processed again.",
 ["histories", "configurations", "fault_sequences"],
 "Every history of modification times of source, output and dependencies, every dependency list and every failure to read one of them.",
 T22 + "no test uses the package entry points or modification times.",
 [YUP], [("freshness check", "pp/yup.py:proc_stream"), ("modification time of a dependency", "pp/yup.py:_getmtime")])

prop("C05", "Every documented option reaches its own setting, with its own default",
 "Each command-line option and each configuration-file key sets exactly the setting it is named for, every translation run starts from the documented default for every setting that is not given, and no setting survives from the previous run. "
 "Each '--X' / '--no-X' pair of switches (and '-W...' / '-Wno-...') sets the same setting to opposite values.",
 ["configurations", "histories"],
 "Every combination of command-line options and configuration keys, over any sequence of runs in one process.",
 T22 + "none sets an option or reads a configuration file.",
 [YUP, CFG, GEN], [("command line", "pp/yup.py:shell_parse_cli_arguments"), ("configuration files", "pp/yup.py:shell_parse_yuconfig"), ("applying a configuration", "pp/yup.py:_pp_configure"), ("defaults", "pp/yuconfig.py")])

prop("C06", "A feature that is switched off does nothing",
 "With reduction of empty lines off, the text is not changed by that stage; with indent trimming off, neither substituted text nor the spacing after an assignment, macro or comment is trimmed; with browse information off no '.json' file is written; with read-only off the output file's mode is not changed; with unbound-application warnings off none is logged; with quiet on, no greeting and no file lines are printed. "
 "With skipping of comments off, comment marks are ordinary text, and the automatic mode skips Python comments for a Python output and C comments for every other output.",
 ["configurations", "inputs"],
 "Every input text under every setting of these switches.",
 T22 + "all of them run with the default settings.",
 [GEN, YUP], [("empty lines", "pp/yugen.py:reduce_emptiness"), ("indent", "pp/yugen.py:TRIM, PLAIN.get_trimmed"), ("comment skipping", "pp/yugen.py:yushell, ps_text"), ("read only, browse file, quiet", "pp/yup.py:_pp_stream, _pp_file, cli")])

prop("C07", "Runs in one process are independent of each other",
 "The result of translating a text does not depend on which texts the same process translated before: names defined or imported by an earlier text, its imported sources, its requested output name, repeat requests, browse records and warnings are all gone, and values given to or returned by a built-in function in one call are not remembered by the next. "
 "In particular no default argument, module-level table or class-level collection that a translation modifies keeps its modification for the next one.",
 ["histories"],
 "Every sequence of translations in one process (several files on the command line, the interactive loop, a Python program importing several yupp-encoded modules).",
 T22 + "each runs one text in isolation and never compares a second run with a first one.",
 [GEN, YUP], [("start of a run", "pp/yugen.py:yushell, yuinit"), ("module-level tables", "pp/yugen.py:builtin, RESULT.files"), ("function attributes", "pp/yugen.py:yushell, feedback, config")])

prop("C08", "Imports: once per run, current text first, then search order",
 "A library imported by name is loaded at most once per run - a repeated or circular import contributes nothing and does not loop - and so is a Python script, while a quoted source file is included every time it is named. "
 "A relative name is looked for as given, then in the directory of the input file, then in the configured directories in their order, then in the library directory, and the first existing file is used. "
 "An import that cannot be read stops the translation with an error that names the import.",
 ["inputs", "programs", "configurations"],
 "Every graph of importing sources and every list of import directories.",
 T22 + "the one test that imports uses a single library once.",
 [GEN], [("source import", "pp/yugen.py:_import_source"), ("Python script import", "pp/yugen.py:_import_python"), ("import form", "pp/yugen.py:ps_import"), ("search list", "pp/yugen.py:yushell")])

prop("C09", "The parser neither drops, duplicates nor invents input text",
 "What a grammar rule hands on as the remaining input is always the exact rest of the text it was given; a literal, name, number, comment or plain text piece is exactly the piece of input between where the rule started and where the remaining input begins (without its documented delimiters); where the piece carries one, its file and position are those of its place in the input. "
 "A rule that does not recognise its construct leaves the input exactly where it was, and everything that was recognised and consumed becomes part of the rule's result. "
 "A text in brackets ends at the bracket that belongs to it: pairs of brackets inside it are part of the text.",
 ["inputs"],
 "Every input text and every position in it.",
 T22 + "they compare parse trees of a few short texts.",
 [GEN], [("grammar rules", "pp/yugen.py:ps_*"), ("source text with position", "pp/yugen.py:SOURCE")])

prop("C10", "Parsing always makes progress",
 "A grammar rule that reports success has consumed at least one character, no rule calls itself again - directly or through other rules - before something has been consumed, and every repetition inside a rule consumes input, yields to its caller or ends on each turn. "
 "Hence the parser ends on every input, with a tree or an error.",
 ["inputs"],
 "Every input text.",
 T22 + "termination on all inputs cannot be sampled.",
 [GEN], [("grammar rules", "pp/yugen.py:ps_*"), ("driver", "pp/yugen.py:yuparse")])

prop("C11", "Every translation error says what failed and where",
 "Every error that the parser or the evaluator raises on its own, and every foreign error it passes on (from an import, an embedded Python expression or a built-in function), carries a message that starts with the tag of its origin and ends with the source location - or, for a value without one, its representation - of the construct that failed. "
 "Neither stage swallows an error, and building a message never fails itself.",
 ["inputs", "programs"],
 "Every error site of the parser and evaluator, and every error raised below them.",
 T22 + "all of them are texts that translate.",
 [GEN], [("parser errors", "pp/yugen.py:ps_*, _import_*"), ("evaluator errors", "pp/yugen.py:yueval"), ("location", "pp/yugen.py:_loc")])

prop("C12", "Every construct of the language is recognised everywhere and evaluated",
 "At each place where the grammar allows a text, a form or an application, every documented alternative is tried, the more specific mark before the more general one, and plain text only after all of them. "
 "Every kind of node that the parser or the evaluator can produce is dealt with by the evaluator, and every kind that counts as a final value is rendered by both ways of producing the output text and by the fallback dump; no case is hidden behind an earlier, more general one.",
 ["programs", "inputs"],
 "Every construct of the language in every nesting.",
 T22 + "they cover a few constructs in a few nestings.",
 [GEN], [("alternatives", "pp/yugen.py:ps_text, ps_former, ps_l_form, ps_application, ps_code"), ("node dispatch", "pp/yugen.py:yueval"), ("rendering", "pp/yugen.py:_is_term, _plain, _plain_with_browse, make_ast_readable")])

prop("C13", "Tracing and logging do not change what is translated",
 "The text produced, the success or failure of each file and the exit status are the same whatever the tracing stage, trace destination, log level and traceback setting are.",
 ["configurations", "inputs"],
 "Every input under every combination of diagnostic settings.",
 T22 + "none turns tracing on.",
 [GEN, YUP], [("trace points", "pp/yugen.py:trace__ps_, echo__eval_, trace__eval_in_, trace__eval_out_"), ("traced translation", "pp/yup.py:_pp")])

prop("C14", "Using a value never changes it; only ($emit) updates a variable",
 "Each use of a variable yields a copy of its own, so evaluating one use - however the evaluator rewrites it - never changes what the variable or another use yields, and a function applied to each element of a list is a fresh copy for each element. "
 "The value of a variable that is already bound is changed only by ($emit).",
 ["programs"],
 "Every program, however often and wherever it uses a variable or a function.",
 T22 + "evaluation rewrites nodes in place, so a missed copy shows only in programs that use a value again in a particular way.",
 [GEN], [("variable lookup", "pp/yugen.py:yueval"), ("environment", "pp/yugen.py:ENV"), ("emit", "pp/yugen.py:yueval")])

prop("C15", "Every documented built-in exists and every name in the program is defined",
 "Every function and constant that the built-in reference documents is available to a text under its documented name, on the supported Python, and accepts the documented number of arguments. "
 "No code of the preprocessor or of a built-in function refers to a name or an attribute of a module that is not defined, uses a local name that was not assigned on its path, or calls a function of the package with arguments it does not take.",
 ["programs", "inputs"],
 "Every code path of the package and every built-in.",
 T22 + "they call a handful of built-ins, and an undefined name shows only when its line runs.",
 [GEN, YUP, INI, "doc/builtin.md"], [("built-in table", "pp/yugen.py:builtin, builtin_special"), ("reference", "doc/builtin.md")])

prop("C16", "The 'yupp' codec never runs code that did not preprocess and parse",
 "Decoding a yupp-encoded module returns the generated text only if the preprocessing succeeded and the generated text is valid Python; in every other case, including any error raised by the preprocessing or by the syntax check, it returns an empty module. "
 "Only the codec names 'yupp' and 'yupp.<known encoding>' are accepted; the bytes are decoded with exactly that encoding; and an incremental decoder decodes only the complete, final input.",
 ["inputs", "fault_sequences"],
 "Every source file, encoding name and chunking of the input.",
 T22 + "none imports a yupp-encoded module.",
 [INI], [("decoding", "__init__.py:decode_stream, decoder_factory, incremental_decoder_factory"), ("codec search", "__init__.py:yupp_search_function")])

prop("C17", "Output names follow the documented rule and never equal the input name",
 "Without an explicit request the output name is derived from the input name: 'name.yu-X' gives 'name.X', 'name.X.yu' gives 'name.X', 'name.yu' and a name without extension get '.yugen' in place of it or appended, and any other 'name.X' gives 'name.yugen.X'; the mark is recognised in any letter case. "
 "With an output directory the same file name is placed in that directory, otherwise beside the input; and the derived name never equals the input's name.",
 ["inputs", "configurations"],
 "Every input file name and output directory.",
 T22 + "no test derives a file name.",
 [YUP], [("output name", "pp/yup.py:_output_fn"), ("extension mark", "pp/yup.py:re_e_yu")])

prop("C18", "Browse information travels with the text and its reader understands it",
 "With browsing on, every stage after the evaluation that rebuilds the text passes its references and offsets on, the '.json' file holds the file list in index order, the references and the offsets under the keys that the editor plug-in reads, and it is written next to the output file it describes. "
 "With browsing on, rendering a value yields the same text as with browsing off, apart from white space.",
 ["inputs", "configurations"],
 "Every input text translated with browse information.",
 T22 + "none turns browsing on.",
 [GEN, YUP, "sublime_text/Data/Packages/yupp/yupp.py"], [("result text", "pp/yugen.py:RESULT, _plain_with_browse"), ("writer", "pp/yup.py:_pp_stream"), ("reader", "sublime_text/Data/Packages/yupp/yupp.py")])

prop("C19", "Output is UTF-8 text, replaced as a whole, and protected when asked",
 "An output file is always written as a whole in UTF-8, whatever the locale, at the name the source text requested or else at the derived name, together with the content that was evaluated. "
 "When read-only output is configured (the default) every output file that is reported as written has been made read-only after it was written.",
 ["inputs", "configurations"],
 "Every successfully translated text, under every configuration and locale.",
 T22 + "no test writes a file.",
 [YUP], [("write", "pp/yup.py:shell_savetofile, _pp_stream")])

prop("C20", "Protected spaces and tabs survive, and their markers never leak",
 "A space or tab produced by ($SPACE) or ($TAB) is neither stripped nor collapsed by the reduction of white space, and in every text that a successful translation delivers each of them has been turned into a real space or tab. "
 "The internal markers used for this are distinct from each other, from everything the reduction treats as white space and from every character that texts are written with.",
 ["inputs"],
 "Every input text, with and without browse information.",
 T22 + "none uses these functions.",
 [GEN, YUP], [("markers", "pp/yugen.py:STEADY_SPACE, STEADY_TAB"), ("replacement", "pp/yugen.py:replace_steady"), ("final text processing", "pp/yup.py:_pp")])

prop("C21", "Translation is deterministic",
 "The output of a translation is a function of the source texts, the configuration and the command line: apart from the date in the generated title, nothing in it depends on the clock, on random numbers, on object addresses or hash order, on the environment or on the order in which a directory is listed.",
 ["inputs", "histories"],
 "Every input, on every run.",
 T22 + "they run each text once, with a fixed hash seed.",
 [GEN, YUP], [("evaluator and built-ins", "pp/yugen.py"), ("title", "pp/yugen.py:builtin")])

prop("C22", "Operations wait until their operands are fully reduced",
 "A built-in function is called, a subscript taken, a format string filled in, an embedded Python expression or a macro text evaluated, and a branch of a condition chosen, only when the values it works on have been completely reduced; otherwise the expression is kept, unreduced and unevaluated, for a later pass. "
 "A text counts as finished only when all its parts are.",
 ["programs"],
 "Every program, in particular those that use parameters which are not bound yet.",
 T22 + "partially bound programs are sampled by two or three texts.",
 [GEN], [("evaluator", "pp/yugen.py:yueval"), ("finality of a value", "pp/yugen.py:_is_term")])

prop("C23", "Literals are recognised by exactly their documented syntax",
 "A C string or character literal, an integer (decimal, hexadecimal, octal, binary, signed, with the long suffix), a floating-point number, a name and a Python magic comment are recognised for exactly the character sequences that their documented syntax describes, neither more nor fewer. "
 "A number keeps its value: a hexadecimal, octal or binary literal is read in its own base.",
 ["inputs"],
 "Every character sequence.",
 T22 + "they use a few short decimal numbers and names.",
 [GEN], [("lexical expressions", "pp/yugen.py:re_INT, re_FLOAT, re_STR, re_CHR, re_CODING, ps_LETTER, ps_FIGURE"), ("numbers", "pp/yugen.py:ps_number")])

prop("C24", "Shipped libraries are complete: nothing they use is missing",
 "Every source that a shipped library imports is shipped with it, every name a shipped library applies is a parameter, a definition of the same or an imported library, or a built-in, and every macro and function the library reference documents is defined by the library it is documented for. "
 "Every construct that a library opens is closed, and an application gives a macro or a function no more arguments than it takes. "
 "Where a library chooses between two implementations, both define the same macros with the same parameters; the C macros they use are defined by the shipped C header, and those of a generated header are defined whether or not it is the implementing file that includes it.",
 ["programs"],
 "Every macro and function of every shipped library, used or not.",
 T22 + "one test imports one library and calls one function of it.",
 ["lib/README.md", "lib/stdlib.yu", "lib/h.yu", "lib/coroutine.yu"], [("libraries", "lib/*.yu"), ("reference", "lib/README.md")])

prop("C25", "Names resolve to the innermost binding and arguments bind in order",
 "A name yields the binding of the innermost enclosing scope that has one, an inner binding never changes an outer one of the same name, and a scope remembers its names in the order in which they were introduced. "
 "Positional arguments are given to the parameters in declaration order, each to the first that has none yet; a named argument goes to the parameter of that name and to no other, and naming a parameter that does not exist is an error. A list applied to functions yields the result of each item in order, and each placeholder of a format string or macro text takes the argument of its own number or name.",
 ["programs"],
 "Every nesting of scopes and every mix of positional, named, default and variadic arguments.",
 T22 + "they sample a few applications.",
 [GEN], [("environment", "pp/yugen.py:ENV"), ("application", "pp/yugen.py:yueval")])

prop("C26", "Documented built-in functions compute what the reference says",
 "Every built-in function of doc/builtin.md that is described by an expression or by a well-known function (list, number, text and file functions; the deprecated string functions) computes that for every argument and every documented number of arguments, "
 "and every name documented as taken from the Python module operator, math or string is the function or constant of that name (div is true division; and, or, not are the operators of those names). "
 "In particular: slices begin and end at the documented bounds, positions of absent items are -1 and those of repeated items the lowest or the highest as documented, first occurrences are kept in order by unique, splitting keeps empty parts and drops only absent groups, and checksums are taken of the UTF-8 text.",
 ["values"], "Every argument of every documented built-in function.",
 T22 + "they apply a dozen of the functions to one or two values each.",
 [GEN], [("table of built-in functions", "pp/yugen.py:builtin")])

prop("C27", "White-space reduction and indenting touch nothing else",
 "With reduction on, of each run of empty lines (white space only) in the produced text exactly the first stays, and every other line stays, in order, changed at most by the removal of its trailing white space; each line keeps its line end. "
 "The browse offsets of a reduced text give, for each place where lines were removed, the position after the lines that stay and the length of all that was removed up to there. "
 "A substituted text of several lines gets the indent of its application before each line but the first (empty lines need not), and nothing else is added. In all of this only line ends divide the text into lines, not form feeds or other separators inside a line.",
 ["texts"], "Every produced text.",
 T22 + "they compare a few outputs without unusual characters.",
 [GEN], [("reduction", "pp/yugen.py:reduce_emptiness"), ("trimming", "pp/yugen.py:TRIM"), ("indent of text", "pp/yugen.py:PLAIN.add_indent")])

# ---- not decided here ----
prop("C30", "Reduction computes what the calculus defines",
 "Applying functions, conditions, loops and macros yields the text that the documented rules of the language define, for every program.",
 ["programs"], "Every program.", T22 + "they sample some thirty programs.",
 [GEN], [("evaluator", "pp/yugen.py:yueval")])
prop("C31", "Substituted text takes the indent of its application",
 "Every line of a substituted text is indented by the indent of the application that produced it, after the common indent of the text has been removed.",
 ["inputs"], "Every text and indent.", T22 + "a few texts sample it.",
 [GEN], [("indent", "pp/yugen.py:TRIM, PLAIN.add_indent")])
prop("C32", "Browse offsets lead to the right source position",
 "Every position of the output text that has a source is mapped by the browse information to the position of that source.",
 ["inputs"], "Every output position of every text.", T22 + "none uses browse information.",
 [GEN], [("offset merge", "pp/yugen.py:_merge_offset, TRIM.trim_with_browse")])
prop("C33", "Evaluation ends, or fails cleanly, on every program",
 "Evaluating any program ends with a result or with an error, without exhausting the machine.",
 ["programs"], "Every program.", "Non-termination cannot be sampled.",
 [GEN], [("evaluator", "pp/yugen.py:yueval")])
prop("C34", "Reported line numbers are the true ones",
 "The line and column in an error message, and the line in a traceback of generated Python code, are those of the construct in the file they name.",
 ["inputs"], "Every error position in every text.", T22 + "none checks a position.",
 [GEN, "pylib/yutraceback3.py"], [("location", "pp/yugen.py:_loc"), ("traceback", "pylib/yutraceback3.py")])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
