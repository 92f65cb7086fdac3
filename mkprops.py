#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the statements stay easy to edit).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E="commands/edit.go"; T="texted.go"; TE="tools/edit_file.go"; EV="edlisp/eval.go"; M="commands/mcp.go"
p("C01","A failed edit leaves the file exactly as it was",
 "When an in-place edit of a file is reported as failed (unparsable script, script error, or one failing open, read, write or close of that file, including a full disk), the file afterwards holds exactly the bytes it held before that edit. This holds for command-line in-place edits, the library's file-editing calls and the server's edit tool; a failure is never reported as a success.",
 ["fault_sequences","inputs"],"every script, file content and entry point, and every position of a single I/O fault inside the edit",
 "Existing tests only run on a healthy file system; no test makes an open, read, write or close fail, let alone at every position.",
 [T,E,TE],[("read everything and run the script before opening the target for writing",T+": EditFile; "+E+": processFilesInPlace"),("restore of the original content after a failed write",T)],
 observe=["file bytes after the run","exit status, status lines, returned error"])
p("C02","Reported success means exactly the script's result is stored",
 "When an edit is reported successful, its destination (the edited file, the output file or standard output) holds exactly the complete result of applying the whole script to the file's complete original content, whatever I/O faults were met on the way. An edit that meets no fault and whose script succeeds is reported successful.",
 ["fault_sequences","inputs","programs"],"every script, syntax, content, size and destination, and every sequence of injected I/O faults",
 "Tests compare a few small happy-path results; nothing exercises short writes, interrupted calls or errors between the parts of a large write, or long scripts against an independent model.",
 [T,E,TE,EV],[("error of every read and write checked before success is reported",T+", "+E+", "+TE)],
 observe=["destination bytes","exit status, status lines, returned error"])
p("C03","Killing an edit at any instant leaves each file wholly old or new",
 "If the process is killed at any instant during an in-place edit of several files, every named file holds either its complete original content or the complete result of its edit, never a mixture or a fragment. Files are handled in the order given: when one file has been changed, every earlier file already has its final content, and files after the one in progress are untouched.",
 ["crash_points","histories"],"every instant (before, in the middle of and after every system call, and between program steps) at which the process may die",
 "No test kills the program; the interesting instants are between two system calls of the same write.",
 [T,E,TE],[("whole result computed in memory before the target is opened for writing",T+", "+E)],
 observe=["file bytes after the kill"])
p("C04","With --backup the original content is recoverable at every instant",
 "When an in-place edit is run with a backup suffix, then at every instant - including after a kill or an I/O error at any point - each file's content from before the run is present in full either in the file itself or in its backup. A file is only ever changed once its backup is complete, and after a reported success the backup holds exactly the pre-edit content.",
 ["crash_points","fault_sequences"],"every instant and every I/O fault during the run, including files named twice and backups that coincide with an edited file or with one another",
 "The backup tests look only at the end state of one undisturbed run.",
 [E],[("backup written and its error checked before the target is opened for writing",E+": processFilesInPlace")],
 observe=["bytes of file and backup at every write"])
p("C05","Modes that only read change nothing on disk",
 "Dry runs, expression evaluation, editing to standard output, script conversion, running script tests, showing documentation and the server's evaluate and documentation tools never create, modify, truncate, rename or remove any file, whatever their input and whatever faults occur. An edit whose result goes to an output file changes no file other than that output file.",
 ["inputs","fault_sequences","configurations"],"every flag combination selecting such a mode, every input and every I/O fault",
 "Tests check one or two files after one happy run of one mode; they do not observe the file system as a whole nor the failure paths.",
 [E,"commands/parse.go","commands/test.go","commands/doc.go","tools/texted_eval.go","tools/texted_doc.go"],[("dry-run and expression branches return before any write",E)],
 observe=["every mutating system call","whole file tree before and after"])
p("C06","One bad file never affects the others in a batch",
 "When several files are edited in one request, each file's outcome depends on that file alone: files that can be edited are edited and reported successful even if others are missing, unreadable, unwritable or make the script fail. Every file is reported exactly once under its own name with its own verdict, in the order given (a tool answer lists the successes first, then the failures), and the request as a whole reports failure exactly when some file failed.",
 ["inputs","fault_sequences"],"every mixture, number and order of good and failing files and every kind of per-file failure, through command line, library and server",
 "Tests use at most two or three files and one missing file; per-file I/O failures and their position in the batch are not explored.",
 [T,E,TE],[("per-file result collection, loop continues after a failure",T+": EditFiles; "+E+": processFilesInPlace; "+TE)],
 observe=["file bytes","status lines, results list, exit status"])
p("C07","Edits touch only the named files and keep their identity",
 "An in-place edit changes no file other than the named ones and their requested backups and leaves no temporary or stray files behind, also when it fails. An edited file stays the same file: permission bits, owner, hard links and symbolic links pointing to it keep working and show the new content.",
 ["inputs","fault_sequences","configurations"],"every file layout (links, permissions, neighbours with similar names), script and I/O fault",
 "Tests create one regular file in an empty directory and check only its content.",
 [T,E,TE],[("target rewritten in place through its path",T+": writeFile; "+E)],
 observe=["whole simulated file tree incl. inode, mode, owner, link count"])
p("C08","No file descriptor stays open after a request",
 "After every edit or evaluation request completes, successfully or not, no file descriptor opened for it remains open, so a server or a library user can run any number of requests. While a batch is processed the number of simultaneously open descriptors does not grow with the number of files.",
 ["fault_sequences","histories"],"every request sequence and every I/O fault position inside it",
 "Leaks on error paths are invisible to tests: they need a failing call and are masked by garbage collection.",
 [T,E,TE,"edlisp/testing/testing.go"],[("files closed on every path",T+", edlisp/testing/testing.go: ParseTestFile")],
 observe=["descriptor table of the simulated kernel"])
p("C09","Results do not depend on how the input is delivered",
 "Splitting standard input, script files, edited files or a server conversation into arbitrary pieces, delivering them with pauses, short reads, short writes or interrupted system calls gives exactly the same output, files and exit status as delivering everything at once.",
 ["schedules","inputs","fault_sequences"],"every partition of every stream into chunks and every sequence of short and interrupted calls",
 "Tests feed complete in-memory strings; real pipes deliver arbitrary fragments.",
 [E,"commands/parse.go","edlisp/parser/linebased.go","edlisp/parser/json.go",M],[("complete reads before parsing or editing; retrying reader loops",E+": processStdin; edlisp/parser")],
 observe=["stdout bytes, file bytes, exit status"])
p("C10","A stream that fails is reported, and no partial input is processed",
 "If reading standard input, the script file or an input file fails before its end, the command exits with a failure, prints no edited or converted text and changes or creates no file. If writing edited text, expression results or a converted script to standard output or the output file fails, the command exits with a failure.",
 ["fault_sequences","inputs"],"every byte position at which a stream may fail, for the edit and parse commands in all their modes",
 "No test makes a stream fail part-way.",
 [E,"commands/parse.go","edlisp/parser/linebased.go","edlisp/parser/json.go","edlisp/writer/shell.go"],[("read and write errors returned to the command's exit status",E+", commands/parse.go")],
 observe=["exit status, stdout bytes, file tree"])
p("C11","The server answers each request exactly once and survives bad ones",
 "Every request sent to the server gets exactly one response carrying that request's identity, in the order the requests were sent, and notifications get none. Malformed messages, unknown tools, missing or ill-typed arguments, failing scripts and I/O errors yield an error answer for that request only, and the server keeps serving the following ones until its input ends.",
 ["histories","inputs","fault_sequences"],"every sequence of well-formed and malformed requests and every file-system fault while they are served",
 "Handler tests call one handler once in process; no test drives a whole server session.",
 [M,TE,"tools/texted_eval.go","tools/texted_doc.go"],[("handlers return error results instead of failing",TE+", tools/texted_eval.go")],
 observe=["stdout protocol stream of the server"])
p("C12","Server requests do not influence one another",
 "The answer to a server request and its effect on files depend only on its own arguments and on the file contents at that moment, not on any earlier request, successful or failed. Replaying a request against the same file contents in a fresh server gives the same answer.",
 ["histories"],"every history of mixed edit, evaluate and documentation requests before the one observed",
 "Each handler test starts from a fresh state and runs a single request.",
 [TE,"tools/texted_eval.go","tools/texted_doc.go",T,EV],[("fresh buffer and environment for each execution",T+": ExecuteScript; tools/texted_eval.go")],
 observe=["server answers and file bytes against a sequential model"])
p("C13","An acknowledged edit is already on disk, and only requested edits are",
 "Whenever the server has emitted the answer to an edit request, every edit that answer reports as successful is completely on disk, so killing the server at any later instant loses none of it. Files not named by any request received so far are untouched, and an edit whose request has not been processed has no effect.",
 ["crash_points","histories"],"every session and every instant at which the server is killed",
 "No test observes the order between acknowledgement and the write, nor kills a server.",
 [TE,T,M],[("edit performed synchronously before the result is returned",TE)],
 observe=["file bytes when each answer is emitted and after the kill"])
p("C14","Looping edits apply exactly the passes they report",
 "A looping edit request runs whole passes over all named files until a pass in which some file fails; each file ends with exactly the result of all its successful passes and nothing of a failed one. The reported pass count and the per-file verdicts are those of that final pass. A request that does not loop is one such pass.",
 ["histories","fault_sequences","inputs"],"every script, set of files, number of passes and I/O fault position in any pass",
 "Tests cover one or two loops on one file, without faults and without comparing all passes with a model.",
 [TE,T],[("loop ends at the first pass with a failed file",TE+": editFilesWithLoop")],
 observe=["file bytes and tool answer"])
p("C15","A looping edit stops promptly when cancelled",
 "When the caller cancels a looping edit request, or the server is asked to shut down by a signal while one is running, the loop stops within one further pass over the files. The files then hold the result of a whole number of successful edits each, and the call returns instead of running for ever.",
 ["schedules","inputs"],"every instant at which the cancellation or signal arrives relative to the passes",
 "No test cancels a request; a loop whose script never fails would hang the test.",
 [TE,M],[("cancellation checked between passes",TE+": editFilesWithLoop")],
 observe=["passes run after the cancellation, file bytes"])
p("C16","No script can crash or wedge the process",
 "For every script and every buffer content, evaluation ends within a number of steps bounded by the size of script and content, with either a result or an ordinary error report; it never panics, exhausts memory through a mere number argument or loops for ever. A server or a batch continues with the next request or file afterwards.",
 ["programs","inputs"],"every script over all built-in commands with arbitrary arguments (negative, huge, fractional or ill-typed), every content, alone or inside a batch or a server session",
 "Tests use well-behaved arguments and positions inside the buffer.",
 [EV,"edlisp/builtin_delete_char.go","edlisp/builtin_delete_line.go","edlisp/builtin_exchange_point_and_mark.go",TE],[("positions clamped to the buffer, loops bounded by the buffer end",EV+", edlisp/builtin_*.go")],
 observe=["step counter, panics, exit status"])
p("C17","Concurrent requests on different files are isolated and race-free",
 "Requests on different files, evaluations and documentation queries running concurrently in one process behave exactly as if each ran alone, whatever the interleaving. No data race occurs between them.",
 ["schedules"],"every interleaving of several callers of the editing library, the tool handlers, the parsers, writers and the documentation",
 "Tests are sequential; interference needs a particular interleaving of two callers.",
 [T,TE,"tools/texted_eval.go","edlisp/documentation_registry.go",EV],[("no shared mutable state except the lock-protected documentation registry","edlisp/documentation_registry.go")],
 observe=["results of each caller, race detector under the simulated scheduler"])
p("C18","The same request always gives the same bytes",
 "Running the same command or server request on the same files and input twice gives byte-for-byte identical output, files and exit status; nothing depends on hash iteration order, random numbers, clock or scheduling.",
 ["schedules","inputs"],"every command and request, and every outcome of the runtime's random choices",
 "A single run of a test sees one random outcome, and golden outputs are not compared across runs.",
 ["commands/doc.go","tools/texted_doc.go",EV,"edlisp/documentation_registry.go"],[("sorting of everything gathered from maps","edlisp/documentation_registry.go, tools/texted_doc.go, commands/doc.go")],
 observe=["stdout, files and exit status under several runtime random seeds"])
p("C19","The script test runner never reports a wrong verdict",
 "A script test is reported as passed exactly when its file was read completely and the actual buffer, result value or error match what the test expects; a test file that cannot be read or parsed is reported as failed. The summary counts and exit status agree with the individual verdicts, and no verdict depends on which other tests ran before or in which order.",
 ["fault_sequences","histories","inputs"],"every set and order of test files, expectation kind and I/O fault while reading them",
 "The runner is only run on the repository's own passing tests; failing, unreadable and truncated ones are hardly covered.",
 ["commands/test.go","edlisp/testing/testing.go"],[("verdict defaults to failed; errors of open, read and parse recorded","edlisp/testing/testing.go: RunTestFileWithTrace")],
 observe=["stdout verdict lines, summary, exit status"])
p("C20","Failing readers never yield a program, failing writers never success",
 "When the source a script is parsed from fails before its end, parsing returns an error and no program, however much was delivered before; with a healthy source the program is the whole script and does not depend on how the bytes were delivered. When the sink a script or value is written to fails or accepts only part of the data, writing returns an error.",
 ["fault_sequences","inputs","schedules"],"every failure position and chunking of the source or sink, for all script formats",
 "Parser and writer tests use in-memory strings and buffers that never fail.",
 ["edlisp/parser/linebased.go","edlisp/parser/json.go","edlisp/writer/shell.go","edlisp/writer/sexp.go","edlisp/writer/json.go","edlisp/testing/testing.go"],[("scanner and encoder errors checked","edlisp/parser/linebased.go: ParseReader; edlisp/writer")],
 observe=["returned program and error"])
p("C27","Expression mode prints exactly each expression's value for each input",
 "Evaluating expressions with -e prints, when it succeeds and was not told to be quiet, exactly one value per input and expression, in the order given, in the requested format and under the input's name when there are several, each being the value a fresh session over that input's complete content yields after the expressions before it. An expression or input that fails, a format that does not exist or an output that cannot be written makes the command fail, and what was printed until then belongs to the expressions before the failure; an evaluation that meets no fault and whose expressions succeed exits 0.",
 ["programs","inputs","fault_sequences"],"every list of expressions and inputs (files or standard input), syntax, output format and sequence of I/O faults",
 "Tests evaluate a few expressions on one healthy file and do not compare several inputs, lost headers or failing outputs.",
 [E,"edlisp/writer/shell.go"],[("one evaluation environment per input, results written and checked one by one",E+": runExpressions")],
 observe=["stdout bytes, exit status"])
p("C28","Commands running at the same time on different files do not disturb each other",
 "Several texted processes working at the same time on different files of one machine, in the same or in different directories, each give the same results, output, files and exit status as if it ran alone, whatever the interleaving of their system calls. A process that is killed half-way does not make another one, on other files, fail or go wrong.",
 ["schedules","crash_points"],"every interleaving of the system calls of two processes with disjoint files (including equal base names and the same script), and every instant at which one of them is killed",
 "No test runs two processes; shared temporary names, lock files or state files only matter in particular interleavings.",
 [E,T,TE],[("only the named files and their backups are created or opened for writing",E+": processFilesInPlace; "+T+": ReplaceFileContent")],
 observe=["results of every system call, file bytes, stdout, exit status"])
p("C29","Requests that are over leave nothing behind in the process",
 "A server, and a program that uses the library or the tool handlers, can go on for any number of requests, successful or failing, well-formed or not: when a request is over, no goroutine started for it is left, and the memory the process holds does not grow with the number and size of the requests it has handled.",
 ["histories","fault_sequences"],"every sequence of requests, repeated any number of times, with I/O faults at any position",
 "Tests make a handful of requests in one process and look at the answers, not at what is left behind.",
 [T,TE,"tools/edit_file.go","tools/texted_eval.go","commands/mcp.go"],[("every request is handled to its end by the goroutine that received it, with state of its own","tools/*.go, "+T)],
 observe=["number of goroutines and live heap of the process when everything has come to rest"])
p("C30","A server that is told to stop stops, and stops cleanly",
 "When the server receives SIGTERM or SIGINT while it serves, at whatever point, it ends, also when its client keeps its end open, after finishing or giving up the request at hand and without working through the requests that still wait (a line it was already reading may still be served). What it has written consists of whole JSON lines; every file holds what the answers given say, a file of the request at hand either its old or its new content, and no temporary file is left. When the client closes its end instead, the server answers everything it was sent and ends.",
 ["schedules","histories","crash_points"],"every session and every instant at which the signal arrives or the client closes its end",
 "No test sends a signal to a server or keeps its input open; what a stop cuts short depends on the instant it comes.",
 [M,TE,T],[("the library's signal-aware loop runs the handlers one after another and returns between two requests",M+": runMCPServer")],
 observe=["end of the process, stdout lines, file bytes and file names"])
# pure functions of their input: not simulation targets
p("C21","The three script syntaxes are interchangeable",
 "The same script written in the shell-like, S-expression or JSON syntax has the same effect on every buffer.",
 ["programs","inputs"],"every script expressible in all three syntaxes and every content","Tests compare a handful of scripts.",
 ["edlisp/parser/linebased.go","edlisp/parser/json.go"],[("all parsers produce the same tree","edlisp/parser")])
p("C22","Converting a script between syntaxes preserves it",
 "Writing a parsed script in any syntax that can express it and parsing the output again gives the same script, for all string and number arguments.",
 ["programs"],"every script","Tests convert a few short scripts.",
 ["edlisp/writer/shell.go","edlisp/writer/sexp.go","edlisp/writer/json.go","edlisp/parser/linebased.go"],[("quoting in the writers matches the parsers","edlisp/writer")])
p("C23","Point and mark always stay inside the buffer",
 "After every command of every script, point and mark lie between the first position and the position after the last character.",
 ["programs","inputs"],"every script and content","Tests check single commands.",
 [EV],[("clamping in the position setters",EV)])
p("C24","Every command is documented and every documented command exists",
 "The set of documented commands is the set of executable commands, and documented examples evaluate as shown.",
 ["configurations"],"every command","One test counts some entries.",
 ["edlisp/documentation_registry.go",EV],[("registration next to each implementation","edlisp/builtin_*.go")])
p("C25","A failing script stops at its first failing command and says where",
 "Evaluation stops at the first command that fails, and the error names that command and the state of the buffer at that point.",
 ["programs","inputs"],"every script and content","Tests check a few failing scripts.",
 [EV,"edlisp/error.go"],[("error wraps instruction index and buffer",EV+": EvalWithTrace")])
p("C26","Tracing does not change the outcome",
 "Running a script with tracing gives the same buffer, result and error as running it without.",
 ["programs","inputs"],"every script and content","One test traces one script.",
 [EV,"commands/test.go"],[("trace callback only reads",EV+": EvalWithTrace")])
for x in P:
    assert len(x["title"])<=80,x["title"]
    assert x["statement"].count(". ")<=2,(x["id"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
