#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, pathlib

P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})

p("C01", "An output file is always the old content or the complete new content",
  "At every instant of a generator run, and wherever the process is killed or interrupted, each requested output path holds either exactly what it held before the run (possibly nothing) or the complete text the run produces for it; a build never sees a truncated, mixed or partly written generated file. An existing output never disappears, unless the run has met an error (rejected input or a failing system call), after which outputs may be erased but never replaced by anything incomplete. (If no temporary file can be created beside an output or renamed to it, the tool may fall back to writing in place; that case is excluded, as is the hidden option --keep-output-files after an error.)",
  ["crash_points", "inputs", "configurations"],
  "For every header, every number of output files, every prior state of the output paths and every instant at which the process may die or another process may look.",
  "The lit and integration tests run the tool to completion once into a fresh directory and look only at the final file; no test stops the tool in the middle or looks at the output path while it runs.",
  ["src/tool.cpp"], [("output written to a temporary beside the target and renamed when the run ends", "src/tool.cpp HandleTranslationUnit: createOutputFile(use_temporary = true)")],
  ["content of every -o path at every system call of the run"])

p("C02", "A run that reports success has delivered every requested output in full",
  "If the generator exits with status 0, every requested output (each file, or standard output) holds the complete generated text, whatever output-side failures happened on the way: full disk, I/O errors, failing or short writes, interrupted calls, refused open or rename, closed pipes, exhausted memory. If it cannot deliver, it exits non-zero, and it always terminates.",
  ["fault_sequences", "inputs", "configurations"],
  "For every sequence of failures of the calls that create, write, close and publish outputs, for every number of outputs and every header that is accepted.",
  "Tests only ever write to a healthy disk; no error path of an output call is executed by any test.",
  ["src/tool.cpp", "src/expose.cpp"], [("stream errors are never cleared; createOutputFile failure is a diagnosed error; exit status derives from the diagnostics engine", "src/tool.cpp HandleTranslationUnit, main")],
  ["exit status", "content of every -o path", "standard output"])

p("C03", "Rejected input never produces output and never reports success",
  "When a header is rejected - by the compiler, by an invalid, misplaced or conflicting annotation, or by a problem found only while bindings are being emitted - the run prints an error and exits with a failure status instead of crashing or reporting success, and at no instant does any output path show code generated from the rejected header: each holds what it held before the run or has been erased (where no temporary file can be created beside an output and the tool writes in place, that is so at the end of the run, provided no further call fails). No header at all makes a run crash or never end. This holds for every kind and position of the mistake in the header or in a header it includes, for every number of outputs, whatever earlier runs left there, and when the mistake coincides with I/O faults or unusual memory layouts.",
  ["histories", "inputs", "fault_sequences"],
  "For every history of edits and runs in which some version of the header is invalid, for every kind and position of mistake, for every number of outputs.",
  "The lit tests check the diagnostic text of a few single-mistake headers with no output file in place; none of them checks what happens to an output left by an earlier run, to several outputs, or to a mistake next to many valid declarations.",
  ["src/tool.cpp", "src/annotated_decl.cpp", "src/expose.cpp", "src/decl_context_graph_builder.cpp", "src/decl_context_graph_processing.cpp", "src/annotations/parser.cpp"],
  [("outputs are erased instead of published once any error has been reported", "src/tool.cpp shouldEraseOutputFiles"), ("diagnostics with error severity", "src/diagnostics.cpp")],
  ["exit status", "standard error", "content of every -o path"])

p("C04", "A finished or interrupted run leaves nothing behind but its outputs",
  "Whatever ends a run - success, rejected input, an output failure, or an interrupting signal (SIGINT, SIGTERM, SIGHUP, SIGPIPE) at any instant - no temporary or other extra file remains, no file other than the requested outputs is created, changed or removed, and a run ended by a signal does not report success. A kill that cannot be caught may leave temporaries, as may a system that refuses to remove files.",
  ["crash_points", "fault_sequences", "inputs"],
  "For every instant at which a signal arrives, every output-side failure, every header and number of outputs.",
  "No test sends a signal or fails a call, and no test lists the directory after a run.",
  ["src/tool.cpp"], [("remove_file_on_signal = true; temporaries discarded on every error path", "src/tool.cpp HandleTranslationUnit, shouldEraseOutputFiles")],
  ["listing and content of the output, source and working directories", "wait status"])

p("C05", "The generated code depends on the input alone",
  "For a fixed header, options and module name, every output file is byte-for-byte the same in every run, whatever memory addresses the process was given, whatever freed or fresh memory contains, and whatever its pid, clock, random numbers, inode numbers, working directory, user environment or prior output files are.",
  ["schedules", "inputs", "configurations"],
  "For every header and every execution environment, in particular every heap layout (which decides the iteration order of pointer-keyed tables).",
  "Tests compare against a few expected lines in one run each; an order that follows pointer values shows only under some layouts and for headers with several candidates, so a single run almost never reveals it.",
  ["src/decl_context_graph_processing.cpp", "src/expose.cpp", "src/visible_decls.cpp", "src/decl_context_graph.cpp", "src/sort_decls.cpp", "src/pragmas.cpp", "src/instantiate_annotated_templates.cpp", "include/genpybind/decl_context_graph.h"],
  [("declaration contexts are sorted topologically with ties broken by source position", "src/decl_context_graph_processing.cpp declContextsSortedByDependencies"), ("declarations of a context are sorted by source position", "src/expose.cpp emitModule"), ("insertion-ordered containers for children and inlined bases", "include/genpybind/decl_context_graph.h, src/visible_decls.cpp")],
  ["bytes of every output file"])

p("C06", "Verdict, diagnostics and graph dumps depend on the input alone",
  "For a fixed header and options, the exit status, the sequence of errors, warnings and notes, and the dumped declaration graph are the same in every run, whatever memory layout, stale memory content, pid, clock, random numbers or inode numbers the process meets.",
  ["schedules", "inputs"],
  "For every header (accepted, rejected, or accepted with warnings) and every execution environment.",
  "Each lit test runs once under one layout; most have a single diagnostic, so an order or presence that depends on pointer values is not visible.",
  ["src/decl_context_graph_processing.cpp", "src/decl_context_graph_builder.cpp", "src/annotated_decl.cpp", "src/diagnostics.cpp", "src/inspect_graph.cpp"],
  [("diagnostics for contexts found in unordered sets are sorted by source position before being reported", "src/decl_context_graph_processing.cpp reportExposeHereCycles, reportUnreachableVisibleDeclContexts"), ("graph nodes keep children in insertion order", "include/genpybind/decl_context_graph.h")],
  ["exit status", "standard error"])

p("C07", "Concurrent runs do not disturb each other",
  "When several generator runs execute at the same time - sharing source, output and working directories, and even when two of them write the same output path - every run that reports success delivered its own complete output, no output path ever shows a mixture of two runs, and no run fails, hangs or leaves files behind because of another.",
  ["schedules", "inputs", "configurations"],
  "For every interleaving of the file operations of up to four runs, every assignment of headers and (possibly shared) output paths.",
  "Tests start the tool one at a time; lit's parallel mode never points two runs at the same output or directory and its timing is not controlled.",
  ["src/tool.cpp"], [("unique temporary name per output and process, atomic rename", "src/tool.cpp HandleTranslationUnit: createOutputFile")],
  ["content of every -o path at every step of the interleaving", "exit status of each run"])

p("C08", "No history can make a later run produce anything but the current bindings",
  "After any history of earlier runs, edits of the header or of headers it includes, kills, signals, failed writes, stale temporaries, damaged output files and clock jumps, one undisturbed run on the current sources exits as a run in a pristine directory would and leaves exactly the output that such a run produces. Bindings therefore never go stale and nothing has to be cleaned up by hand.",
  ["histories", "fault_sequences", "crash_points"],
  "For every sequence of edits, runs, crashes and faults, with file times moving forwards, backwards or not at all.",
  "Every test starts from nothing and runs the tool once.",
  ["src/tool.cpp", "src/pragmas.cpp"], [("the tool keeps no state between runs; outputs are replaced as a whole", "src/tool.cpp")],
  ["exit status", "content of every -o path after each undisturbed run"])

p("C09", "Trouble reading the sources never yields a successful wrong result",
  "Short reads, interrupted reads and refused memory mappings of the header, of headers it includes or of the compilation database have no effect on the result. If the header or a header it includes cannot be opened or read, the run either still produces exactly the output it would have produced without the failure, or exits non-zero and no output path shows any new text: each holds what it held before or has been erased.",
  ["fault_sequences", "inputs"],
  "For every placement of read-side failures over the files a run reads.",
  "Tests read healthy files only.",
  ["src/tool.cpp", "src/pragmas.cpp"], [("all source access goes through the compiler's file manager, whose failures are diagnosed errors", "src/tool.cpp main, BeginSourceFileAction")],
  ["exit status", "content of every -o path"])

p("C10", "Splitting over several files loses, repeats and reorders nothing",
  "Whatever number of (distinct) output files is requested, and whatever earlier runs with other numbers left behind, the files together contain each binding definition of the single-file output exactly once and in the same relative order, the first file alone defines the module and calls every one of them in the single-file order, and every other file declares what it defines. The split set compiles, links and imports to the same Python module as the single file.",
  ["configurations", "histories", "inputs"],
  "For every header, every number of output files (including more files than bindings) and every history of runs with different numbers, crashes and faults in between.",
  "Integration tests use a fixed number of files per module and never compare the result with another number.",
  ["src/expose.cpp", "src/tool.cpp"], [("consecutive chunks of exposers are assigned to the streams by index", "src/expose.cpp emitModule"), ("includes are emitted to every stream", "src/tool.cpp HandleTranslationUnit")],
  ["text of all -o files", "imported module"])

p("C11", "Importing a generated module never fails because of registration order",
  "For every accepted header and in every run, the generated module registers each class after all of its exposed public bases (direct ones, and those reached through inlined bases) and after the class or submodule it is nested in, registers all types before any function, default argument, alias or manual binding that may refer to them, and runs the manual bindings of a scope in source order with postambles last. Importing the module therefore succeeds.",
  ["schedules", "inputs"],
  "For every class graph - with templates, relocated classes, reopened namespaces, multiple and virtual bases, inlined and hidden bases - and every heap layout of the generator.",
  "Integration tests cover a few fixed hierarchies in one layout each.",
  ["src/decl_context_graph_processing.cpp", "src/expose.cpp"], [("topological sort over parent scopes and public bases", "src/decl_context_graph_processing.cpp declContextsSortedByDependencies"), ("introducers first, then expose calls, then postambles", "src/expose.cpp emitModule")],
  ["order of registrations in the main output file", "import of the compiled module"])

p("C12", "The installed launcher is indistinguishable from running the tool",
  "The Python entry point runs the tool installed next to the package with exactly the arguments it was given, byte for byte, on the caller's standard streams, in the caller's directory and environment (apart from the locale coercion of the Python interpreter itself), and ends with the tool's status: the same exit code, a failure status if the tool was killed by a signal, and a failure if the tool is missing or cannot be executed.",
  ["histories", "fault_sequences", "inputs"],
  "For every argument vector, every exit status or signal of the tool, every installation state.",
  "No test runs the launcher at all.",
  ["python/genpybind/__init__.py"], [("subprocess.call with an argument list, sys.exit with its result", "python/genpybind/__init__.py tool")],
  ["arguments, streams, cwd and environment seen by the tool", "exit status of the launcher"])

p("C13", "Objects live exactly as long as the annotations promise",
  "In the generated module, an object named as the patient of a keep_alive annotation - on a constructor, method, static method or free function, naming return, this or any parameter - stays alive at least as long as its nurse and is destroyed after the last holder is gone; and return value policies and holder types decide copies, references and ownership as annotated. No sequence of calls, dropped references and garbage collections destroys an object that is still promised to live, destroys one twice, or leaks one for ever. (Functions exposed as functions; reference cycles that include a keep_alive are excluded.)",
  ["histories", "schedules", "inputs"],
  "For every history of constructing, calling, dropping and collecting over the annotated API, and every shape of annotated function.",
  "Integration tests run one fixed sequence for two shapes of keep_alive.",
  ["src/annotated_decl.cpp", "src/expose.cpp"], [("argument names are translated to positions: 0 return, 1 this, then parameters", "src/annotated_decl.cpp processAnnotation(FunctionDeclAttrs)"), ("emitPolicies", "src/expose.cpp")],
  ["construction and destruction events of the C++ objects"],
  )

p("C14", "Modules can be imported in any order and combination",
  "Given several generated modules that refer to each other's types in type aliases and function signatures (and in default arguments and variables where a manual binding at the top of the header imports the defining module), every order and history of imports succeeds: an alias exposes the very same Python class if its type is registered at that time, and otherwise is None with exactly one warning naming the type; the module then works fully, and functions using a foreign type work as soon as the defining module is imported. If warnings are turned into errors the import fails cleanly with that warning and leaves the interpreter usable.",
  ["histories", "schedules", "fault_sequences"],
  "For every order, subset and repetition of imports under every warning filter.",
  "One integration test covers one order of two modules under the default filter.",
  ["public/genpybind/binding-helpers.h", "src/expose.cpp"], [("getObjectForType looks the type up without throwing", "public/genpybind/binding-helpers.h"), ("alias emission", "src/expose.cpp handleDeclImpl")],
  ["attributes of the imported modules", "warnings and exceptions raised by import"])

# ---- not claimed: pure functions of the input (see MANIFEST not_applicable)
p("C20", "Exactly the declarations marked visible are exposed",
  "A declaration is exposed if and only if its own annotation says so or, lacking one, its context's default visibility does; private and protected members never are.",
  ["inputs"], "For every header.", "Tests sample a few dozen headers.",
  ["src/decl_context_graph_processing.cpp", "src/expose.cpp", "src/visible_decls.cpp"], [("deriveEffectiveVisibility", "src/decl_context_graph_processing.cpp")], ["generated code"])
p("C21", "Python names, docstrings, parameter names and defaults match the C++ API",
  "Every exposed entity carries the name given by expose_as or its C++ name, its documentation comment, its parameter names and its default arguments with the same meaning as in C++.",
  ["inputs"], "For every header.", "Tests sample a few headers.",
  ["src/expose.cpp", "src/annotated_decl.cpp", "src/string_utils.cpp"], [("emitSpelling, emitParameters, AttemptFullQualificationPrinter", "src/expose.cpp")], ["generated code"])
p("C22", "Calling through Python has the meaning of calling the C++ API",
  "Operators, properties, overloads, implicit conversions, readonly members, noconvert and required arguments behave in Python as the annotated C++ declarations do.",
  ["inputs"], "For every header and call.", "Tests sample a few headers and calls.",
  ["src/expose.cpp", "src/annotated_decl.cpp"], [("RecordExposer", "src/expose.cpp")], ["imported module"])
p("C23", "The annotation language is parsed as specified",
  "Every well-formed annotation is accepted with its documented meaning and every ill-formed one is diagnosed at its location.",
  ["inputs"], "For every annotation string.", "Unit tests sample strings.",
  ["src/annotations/parser.cpp", "src/annotations/literal_value.cpp"], [("Parser::parseAnnotations", "src/annotations/parser.cpp")], ["diagnostics"])

out = pathlib.Path(__file__).with_name("properties.jsonl")
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P), encoding="utf-8")
