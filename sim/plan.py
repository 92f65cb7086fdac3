"""How many seeds each check runs and what its evidence says about them."""

REAL = ["cmd/texted main, cobra", "commands", "tools", "texted library", "edlisp with parser, writer, testing", "mcp-go stdio server", "Go standard library above the system call layer (os, bufio, encoding/json, encoding/xml)"]
STUB = ["kernel: file system, descriptors, pipes, permissions (in memory)", "clock and sleeps", "signals", "process exit and crash", "runtime random source and goroutine choice (seeded)", "terminal/pipe peer (scripted client)"]
ASSUME = ["the simulated kernel follows POSIX for the calls used; a call it does not know fails the check as trouble, not as held",
          "one statement of /repo code is the finest point at which the simulator stops or switches the program"]

EDIT = "Random worlds (files, links, permissions), scripts tuned to the content, and edits through command line, library, tool handler and server; non-trivial: "

def P(quick, rule, cap=30, thorough=None, **kw):
    return dict(quick=quick, quick_cap=cap, thorough=thorough or quick * 25, thorough_cap=600, rule=rule, **kw)

MCP = "Random conversations with the server (well-formed requests for every tool, malformed lines, notifications, ill-typed arguments), random worlds; non-trivial: "

PLAN = {
    "C01": P(60000, EDIT + "a fault fired or the script does not parse."),
    "C02": P(60000, EDIT + "a fault fired."),
    "C03": P(60000, EDIT + "the process was killed before its end."),
    "C04": P(60000, EDIT + "a fault fired or the process was killed."),
    "C05": P(60000, "Every mode that only reads (dry run, -e, standard output, convert, test, doc, evaluate and doc tools), random worlds and faults; non-trivial: a fault fired."),
    "C06": P(60000, EDIT + "some file failed or a fault fired."),
    "C07": P(60000, EDIT + "every run."),
    "C08": P(60000, EDIT + "a fault fired or several files were named."),
    "C09": P(60000, "Commands and server conversations whose input arrives in other pieces, with pauses, short reads and writes and interrupted calls; non-trivial: every disturbed run."),
    "C10": P(60000, "Commands whose input or output stream fails after a random prefix; non-trivial: the fault fired."),
    "C11": P(60000, MCP + "every conversation with a bad message or a fault."),
    "C12": P(60000, MCP + "every conversation of several requests."),
    "C13": P(60000, MCP + "the server was killed."),
    "C14": P(60000, "Looping edits over random worlds with scripts that fail after some passes, with faults; non-trivial: every run."),
    "C15": P(60000, "Looping edits that never end by themselves, cancelled at a random system call or statement; non-trivial: the cancellation fell into the run."),
    "C16": P(60000, "Random and hostile scripts and buffers through command line, library and server; non-trivial: every run."),
    "C17": P(6000, "Several callers with their own files on one simulated machine, switched at random statements and system calls, under the race detector; non-trivial: every run with a forced switch. A process runs 50 seeds, so that what is done once in a process is met by many callers.", race=True, life=50),
    "C18": P(60000, "Random commands and conversations run several times under different hash seeds, clocks, process ids and schedules; non-trivial: every run after the first."),
    "C19": P(60000, "Random test files, damaged files and orders through the test command, with read faults; non-trivial: a fault fired or a test fails."),
    "C20": P(60000, "Parsers and writers of all syntaxes over readers and writers that fail, stall or deliver pieces; non-trivial: a fault fired."),
    "C27": P(60000, "Random expressions over files and standard input in every syntax and output format, with faults; non-trivial: a fault fired."),
    "C29": P(60000, "The same requests again and again (well-formed, malformed, failing, under repeated I/O faults and forced switches) in one process, through server, library and tool handlers; counted when everything has come to rest; non-trivial: every run."),
    "C30": P(120000, "Sessions of tool calls during which SIGTERM or SIGINT arrives at any statement, any system call or when the server is idle, with a client that keeps its end open or closes it, retried I/O and forced switches; non-trivial: a signal was delivered."),
    "C28": P(60000, "Two processes (edits in place, to standard output or to a file, through command line, library, tool handler and server) on different files of one machine; the recorded calls of one are made between the calls of the other; either may be killed; non-trivial: calls of both were mixed."),
}
