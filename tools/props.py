HOOKS = ["3e0ac81d74a3bd619345b9055ed7a73a7960b441"]
NOTES = "See DESIGN.md. Every check builds /repo's working tree out of tree in .cache (ignored by git)."
P = []


def p(**k):
    P.append(k)


p(id="L01", title="Evaluated programs mean what the language defines",
  statement="Evaluating a program form by form in the interpreter gives every form the value and the side effects that the "
            "language defines: lexical scope and closures, conditionals, sequencing, definitions and global assignment, "
            "quotation, lists, strings, symbols, arithmetic, pattern matching, currying and handled throws, in every combination. "
            "A program whose meaning is defined never crashes and never gets another value.",
  over=["programs"], quant="every program made of the special forms, standard macros and builtin functions, up to a few hundred nodes",
  why="the tests evaluate a few dozen fixed expressions; the interactions of scoping, currying, matching and control operators are a "
      "combinatorial space of programs",
  files=["lib/eval.cora", "src/runtime.c", "init.cora", "src/types.c"],
  mech=[("closure-generating evaluator", "lib/eval.cora"), ("trampolined calls and stack frames", "src/runtime.c coraRun/coraCall"),
        ("macro expansion of let, cond, match, func", "init.cora")],
  observe=["printed value of the last form, which lists the result and the assigned globals"],
  technique="differential monitoring of generated programs against a reference evaluator",
  note="Exploration: thousands of random typed programs per run, each judged by an independent reference evaluator. Trusts the "
       "reference and covers only programs that do not depend on operand order.")

p(id="L02", title="Compiled programs mean the same as the language defines",
  statement="Compiling a source file to C, building it and loading it runs the program with exactly the value and side effects "
            "that the language defines, the same as evaluating it. This holds for every nesting of functions, closures over any "
            "variables, macros, matching, control operators and names, and the generated C always compiles.",
  over=["programs"], quant="every compilable program made of the special forms, standard macros and builtin functions",
  why="the tests compile about forty fixed files; every compiler pass (renaming, partial evaluation, CPS and closure conversion, "
      "C printing) is only right if it preserves meaning for all programs",
  files=["lib/toc.cora", "lib/peval.cora", "lib/toc.c", "init.cora", "src/runtime.c"],
  mech=[("compilation passes", "lib/toc.cora"), ("partial evaluator", "lib/peval.cora"), ("load of a shared object", "src/runtime.c load-so")],
  observe=["printed value of the loaded file"],
  technique="differential monitoring of compiled generated programs against a reference evaluator",
  note="Exploration: hundreds to thousands of random programs per run through the real compiler, gcc and loader. A compilation that "
       "takes longer than the limit is counted as inconclusive.")

p(id="L03", title="Tail calls take no space and deep recursion works",
  statement="A loop written as tail calls, through any mixture of mutual recursion, conditionals, let, match, sequencing, partial or "
            "over-application and apply, runs in constant space however many iterations it makes, interpreted and compiled. "
            "Recursion that is not a tail call may nest hundreds of thousands deep and returns the right value.",
  over=["programs", "iteration counts"], quant="every program whose calls are in tail position, every number of iterations; every depth up to memory",
  why="a test runs one loop a few times; whether space is constant is a fact about every tail context and about growth over unbounded runs",
  files=["src/runtime.c", "lib/toc.cora", "lib/eval.cora", "init.cora"],
  mech=[("trampoline and segmented stack", "src/runtime.c"), ("CPS conversion decides what is a tail call", "lib/toc.cora")],
  observe=["value of the loop", "peak resident memory at N and 10N iterations"],
  technique="runtime monitoring of values and peak memory of generated loops at two lengths",
  note="Exploration: about 280 pairs of runs over random tail contexts plus eight deep recursions. Not tail positions: the body of try, "
       "the last operand of and/or.")

p(id="M01", title="The collector never frees or corrupts a reachable object",
  statement="Whatever a program does (nested calls, closures, continuations, deep stacks, strings, vectors, symbols) and whenever a "
            "collection starts or takes a step, every object the program can still reach keeps its contents, and no memory error "
            "or undefined behaviour occurs.",
  over=["programs", "collection schedules"], quant="every program and every schedule of collection starts, marking steps and sweeps",
  why="a missing root or barrier shows only when a collection step falls between two particular instructions; tests never collect there",
  files=["src/gc.c", "src/runtime.c", "src/types.c", "src/str.c"],
  mech=[("incremental mark and sweep, generational", "src/gc.c"), ("roots on the segmented stack", "src/runtime.c")],
  hook="CORA_VERIF in src/gc.c: collection interval and step size from the environment, poisoning of dead objects",
  observe=["AddressSanitizer and UBSan reports", "values of the programs"],
  technique="AddressSanitizer/UBSan with collector stress and poisoning, values judged by a reference evaluator",
  note="Exploration: over a thousand random programs with a collection every few hundred bytes, and over a hundred self-checking "
       "programs that rearrange thousands of objects for hundreds of collections.")

p(id="M02", title="Unreachable objects are reclaimed",
  statement="The memory of a program whose live data is bounded stays bounded, however long it runs: garbage conses, strings, "
            "vectors, closures, continuations that were resumed, hash entries and spent stack are all reused, also for objects of another size.",
  over=["workloads", "run lengths"], quant="every mix of allocations with bounded live data, every run length",
  why="a leak is a fact about growth over unbounded runs; a test that ends soon cannot see it",
  files=["src/gc.c", "src/runtime.c", "lib/hash-h.c"],
  mech=[("sweep and size classes", "src/gc.c"), ("stack segments", "src/runtime.c")],
  observe=["peak resident memory at N and 8N iterations"],
  technique="runtime monitoring of peak memory over pairs of run lengths",
  note="Exploration: about 80 pairs of workloads and series of phases with objects of different sizes. Known finding: a continuation that is thrown and never resumed keeps its stack.")

p(id="M03", title="The heap keeps every graph the embedder builds",
  statement="Any sequence of allocations, stores, overwrites and drops of conses, vectors (also over-sized ones), strings and symbols "
            "through the C interface, with collections at any point and objects of any age pointing to each other, leaves exactly "
            "the graph that was built.",
  over=["histories"], quant="every history of allocation, mutation and collection",
  why="old-to-young pointers, marked-to-unmarked stores and size boundaries form an unbounded space of histories",
  files=["src/gc.c", "src/types.c", "src/export.c"],
  mech=[("write barriers and the remembered set", "src/gc.c"), ("size classes, large objects", "src/gc.c")],
  hook="CORA_VERIF in src/gc.c",
  observe=["every reachable object compared with a shadow copy"],
  technique="shadow-state monitor over random mutation histories, plain and AddressSanitizer builds",
  note="Exploration: 240 histories of thousands of mutations, each verified over a hundred times.")

p(id="L04", title="Every way of passing the arguments of a function agrees",
  statement="A function applied to its arguments one at a time, all at once, in any grouping, through saved partial applications or "
            "with apply gives the same result and runs its body exactly once, for user functions, closures, functions that return "
            "functions, func rules and builtins, interpreted and compiled. Partial applications keep their arguments and may be reused.",
  over=["functions", "groupings of arguments"], quant="every arity, every split of the arguments into calls",
  why="the number of ways to split the arguments is exponential, and the runtime has separate paths for too few and too many arguments",
  files=["src/runtime.c", "src/types.c", "lib/toc.cora", "init.cora"],
  mech=[("partial application and over-application", "src/runtime.c coraDispatch/apply"), ("known-arity calls of compiled code", "lib/toc.cora")],
  observe=["value of every application", "number of bodies entered"],
  technique="runtime monitoring of generated applications against a model of currying",
  note="Exploration: thousands of applications per run, arities 0 to 20 and up to three returned functions.")

p(id="R01", title="The reader and the printer are exact on any bytes",
  statement="For any input bytes the reader delivers exactly the forms that the syntax defines, or reports the input as unreadable or "
            "ended; it never reads outside its buffers, loops or crashes. What the printer writes of a readable value reads back as "
            "an equal value.",
  over=["inputs"], quant="every byte sequence; every value made of integers, symbols, strings, booleans and lists",
  why="tests read about twenty literals; buffer bounds, number ranges and nesting only fail at particular lengths and bytes",
  files=["src/reader.c", "src/types.c", "src/str.c"],
  mech=[("recursive descent reader with a character buffer", "src/reader.c"), ("printer", "src/types.c printObj")],
  observe=["forms read, error or end of input", "sanitizer reports"],
  technique="AddressSanitizer/UBSan and a model of the reader on random, mutated and well-formed bytes",
  note="Exploration: tens of thousands of inputs per run. Lists nested more than a few thousand deep are left out: reading them "
       "recurses on the C stack.")

p(id="D01", title="Equality, arithmetic, predicates and symbols follow their definition",
  statement="Equality is structural on lists and strings and by identity on symbols, closures and vectors; arithmetic and comparison "
            "are exact while numbers stay below 2^53; each value satisfies exactly the predicates of its kind; symbols made in any way "
            "are the same when their names are. This holds interpreted and compiled, for constants and variables.",
  over=["values"], quant="every pair of values, every operator, every way of presenting the operands",
  why="primitives exist in three places (runtime, compiler, partial evaluator) and values of many kinds; tests try a few of each",
  files=["src/types.c", "src/types.h", "src/runtime.c", "lib/toc.cora", "lib/peval.cora"],
  mech=[("tagged words", "src/types.h"), ("inlined primitives", "lib/toc.cora"), ("constant folding", "lib/peval.cora"), ("symbol trie", "src/types.c")],
  observe=["value of every operation"],
  technique="runtime monitoring of generated operations against a model of the values",
  note="Exploration: thousands of operations per run on values of nine kinds.")

p(id="S01", title="The string library computes what its names say",
  statement="Every operation of the string library, on any byte strings and indexes, returns what the operation means: append, slice, "
            "search, prefix and suffix tests, split, join, replace, trim, case, conversion to and from lists, numbers and symbols, and bytes.",
  over=["strings"], quant="every byte string, including empty ones, ones with zero bytes and long ones",
  why="edge cases (empty pieces, overlapping matches, bytes above 127) are too many for a list of examples",
  files=["lib/string.c", "src/str.c", "src/runtime.c"],
  mech=[("string operations", "lib/string.c"), ("string and bytes objects", "src/str.c")],
  observe=["value of every call"],
  technique="AddressSanitizer and a model on byte strings, over generated calls",
  note="Exploration: tens of thousands of calls per run.")

p(id="S02", title="A hash table returns the last value stored under each key",
  statement="After any history of sets, deletes and lookups, with any kinds of keys and any number of entries, each lookup returns "
            "the value last stored under an equal key, or the default when there is none, and the count is the number of keys.",
  over=["histories"], quant="every history of operations, every key",
  why="collisions, chains and resizing depend on the history and the keys",
  files=["lib/hash.cora", "lib/hash-h.c"],
  mech=[("buckets of association lists", "lib/hash.cora"), ("hash function", "lib/hash-h.c")],
  observe=["value of every lookup"],
  technique="runtime monitoring of operation histories against a dictionary model",
  note="Exploration: hundreds of histories per run.")

p(id="S03", title="Queues, vectors and bytes keep their contents and their bounds",
  statement="A queue delivers each element once, in the order they were added; a vector or bytes object returns what was last stored "
            "at each index, however it grows; an access outside the bounds is refused and never touches memory of something else.",
  over=["histories"], quant="every history of operations, every index",
  why="order, growth and bounds are facts about histories, not about a single call",
  files=["lib/queue.cora", "src/runtime.c", "src/types.c", "src/str.c"],
  mech=[("two-list queue", "lib/queue.cora"), ("vectors", "src/types.c"), ("byte primitives", "src/runtime.c")],
  observe=["value of every operation", "sanitizer reports"],
  technique="AddressSanitizer and models of queue, vector and bytes over operation histories",
  note="Exploration: hundreds of histories per run, and about a hundred accesses out of range.")

p(id="S04", title="Derived forms and the list library mean what they are defined to mean",
  statement="let-loop, define-record and the list functions, values and state monad of the standard library compute, for every body "
            "and every list, what their definition says, interpreted and compiled, also when user variables have unlucky names.",
  over=["programs"], quant="every use of the derived forms and list functions",
  why="macros meet arbitrary user code: capture, nesting and shadowing are a combinatorial space",
  files=["lib/let-loop.cora", "lib/define-record.cora", "lib/sys.cora", "lib/monad.cora", "init.cora"],
  mech=[("macros", "lib/let-loop.cora, lib/define-record.cora, lib/monad.cora"), ("list functions", "init.cora, lib/sys.cora")],
  observe=["value of every form"],
  technique="runtime monitoring of generated uses against models of the forms",
  note="Exploration: thousands of uses per run.")

p(id="L05", title="Throw, handle and resume compose",
  statement="A throw reaches the innermost active try and gives its handler the value and the rest of the computation; calling that "
            "continuation, at once, later, from any depth or after its try has returned, continues exactly there with the handler "
            "installed again. Values, effects and their order are those of deep one-shot handlers. A second resumption of the same "
            "continuation, or a throw outside any try, ends the program and never yields a value or touches freed memory.",
  over=["programs"], quant="every nesting of try, throw, resumption and rethrow, every stack depth at each of them",
  why="the stack is cut and spliced at arbitrary points; the tests have four fixed uses of try",
  files=["src/runtime.c", "lib/toc.cora"],
  mech=[("try marks, segmented stack, continuation objects", "src/runtime.c builtinTryCatch, builtinThrow, continuationAsClosure")],
  observe=["value and log of the program", "sanitizer reports"],
  technique="differential monitoring against a reference evaluator with delimited continuations; AddressSanitizer with collector stress",
  note="Exploration: thousands of effect-dense programs per run (about fifty thousand throws and resumptions), interpreted, compiled and "
       "under AddressSanitizer. Throws out of the toplevel code of loaded files included.")

p(id="K01", title="Importing packages runs the current source of each once, in order",
  statement="An import runs the toplevel code of the package after that of the packages it imports, in textual order, once per "
            "process however many importers there are, and gives every importer the same functions, variables and macros under "
            "their exported names. What runs is the source as it is on disk, whatever was compiled before: after any edit, with "
            "several processes importing at the same time, after a process and its compiler were killed at any moment, for any "
            "directory name, and for cyclic imports; a package whose source is gone runs from its compiled file.",
  over=["package graphs", "histories of runs and edits", "schedules of concurrent processes", "kill points"],
  quant="every acyclic graph of packages (and cycles through functions), every history of runs, edits and kills",
  why="the tests import from a tree that nobody edits, one process at a time; a stale or half-written compiled file depends on timing",
  files=["src/runtime.c", "init.cora", "lib/toc.cora"],
  mech=[("import, choice between source and compiled file", "src/runtime.c builtinImport, safeToUseSo"),
        ("compile, build and load", "src/runtime.c loadFile"), ("name resolution", "init.cora cora/init#parse")],
  observe=["log of toplevel code that ran", "values computed through every package"],
  technique="runtime monitoring of random package graphs under edits, concurrent processes and kills against a model of the graph",
  note="Exploration: about 400 scenarios, over a thousand runs of the real command per check. Killed processes: SIGKILL of the process "
       "group; power loss is not simulated.")

p(id="C01", title="Messages arrive exactly once, a choice commits exactly one alternative",
  statement="A send and a receive on a channel meet exactly once: every message sent is received by one receiver, unchanged whatever "
            "value it is (false included), none is lost, doubled or invented; waiting senders and waiting receivers of a channel are "
            "served in the order they came. Performing a choice commits exactly one of its alternatives, the others have no effect, "
            "then or later. The wrap function runs once, in the task that performs, on the value of the operation, and its value is "
            "that of perform. A task that can go on does go on (no lost wakeup), a yielding task does not starve others, and memory "
            "does not grow with the number of operations.",
  over=["programs of tasks", "schedules", "values"],
  quant="every set of tasks, channels, choices, wraps, yields and their interleavings",
  why="the tests have one producer and consumer with fixed values; choices and waiting on both sides depend on the schedule",
  files=["lib/cml.cora", "lib/chan.cora", "lib/queue.cora"],
  mech=[("operations, choice, wrap, scheduler", "lib/cml.cora"), ("rendezvous queues", "lib/chan.cora")],
  observe=["log of what each task sent, received and got from perform", "peak memory over long runs"],
  technique="runtime monitoring: offline checker over event logs of random task programs (conservation, order, exactly-once, progress), "
            "AddressSanitizer, memory growth",
  note="Exploration. Tasks start once per process (cml-entry); an operation is not performed inside a try of the task itself.")

p(id="S05", title="Parser combinators follow ordered choice with backtracking",
  statement="A parser built from the combinators of cora/lib/peg accepts exactly what its grammar, read as a parsing expression grammar, "
            "accepts: alternatives are tried in order, each on the same input, repetition is greedy, a predicate or a failure consumes "
            "nothing. An accepting parser returns the value its sequence, repetition, map and bind describe, and exactly the input that "
            "is left. This holds for inputs and nesting of any length.",
  over=["grammars", "inputs"], quant="every grammar without left recursion and every input",
  why="the test parses three lines that all match and never looks at a result",
  files=["lib/peg.cora"], mech=[("combinators", "lib/peg.cora @seq @or @! @+ @* @? $map $bind")],
  observe=["outcome, value and remaining input"],
  technique="differential monitoring of random grammars against a model parser; AddressSanitizer",
  note="Exploration: 1,700 grammars on 20,000 inputs per run, inputs up to 100,000 tokens, nesting up to 10,000.")

p(id="S06", title="Serialised sxml is well formed and reads back as the tree",
  statement="The text that sxml->xml makes of a tree of elements, attributes, text and nested lists of nodes is well formed, and a strict "
            "reader gets the same tree from it: every element, attribute, attribute without value and text byte, in order, whatever "
            "characters the text and the attribute values hold, and to any depth and width.",
  over=["trees"], quant="every tree of named elements with any text and attribute bytes",
  why="the test serialises the files of a blog that is not in the repository and looks at nothing; escaping is only right if it is right for every character in every place",
  files=["lib/sxml.cora", "lib/string.c"], mech=[("serialiser and escaping", "lib/sxml.cora"), ("string concatenation and replacement", "lib/string.c")],
  observe=["the serialised bytes"],
  technique="monitoring of serialised random trees by a strict reader; AddressSanitizer",
  note="Exploration: 3,300 trees per run.")

p(id="S07", title="Files, pipes and commands carry exactly the bytes written",
  statement="Whatever the order in which files and pipes are opened, written, copied and closed, each file holds exactly the bytes written to "
            "it, reads and copies deliver every byte whatever their values and number, a directory path of any length is made, the "
            "counts and statuses returned are right, a failure is reported by its value and never by a crash or a hang, and a closed "
            "file leaves no descriptor behind.",
  over=["histories of operations", "data"], quant="every history of opens, writes, reads, copies, closes and commands, every content and path",
  why="no test reads back what it wrote; sizes around buffers, failing writes, long paths and interleaved files need histories that no fixed test has",
  files=["lib/io.c", "lib/os.c"], mech=[("files", "lib/io.c open-output-file write-bytes read-all copy"), ("commands and pipes", "lib/os.c popen pclose exec")],
  observe=["values returned", "files on disk after the history", "open descriptors"],
  technique="model-based monitoring of random histories against the files left on disk; AddressSanitizer",
  note="Exploration: 380 histories of about 40 operations per run, contents up to 100,000 bytes.")

p(id="S08", title="JSON documents are read as the values they hold",
  statement="json-load-file reads every JSON document as its value: types, sizes, array elements by index, object members by name, strings to the "
            "byte and integers exactly, also through nested documents, with nothing found at an absent index or name. A file "
            "that is no JSON document is refused, and no document and no use of the accessors on another value crashes.",
  over=["documents", "access paths"], quant="every document and every sequence of accessors on it",
  why="no test reads a document; damaged documents, odd escapes, large numbers and indices out of range are unbounded",
  files=["lib/json.c"], mech=[("accessors", "lib/json.c"), ("reader", "libjansson")],
  observe=["value of every accessor"],
  technique="differential monitoring of random and damaged documents against an independent reader; AddressSanitizer",
  note="Exploration: 2,000 documents per run, with integers up to 2^53 and up to 1000 levels.")

p(id="S09", title="Markdown is read as its rules say and becomes the right sxml",
  statement="The parser reads a CommonMark document (with strikethrough and task lists) as the blocks and spans its rules define, "
            "and reports them as properly nested events. process-file returns the sxml of exactly those events: elements, attributes and text in "
            "order. No file of bytes, however damaged, crashes or corrupts it; a file that cannot be read gives the empty list.",
  over=["documents"], quant="every document; every sequence of bytes without NUL",
  why="no test reads a markdown document; block structure, nesting and delimiter pairing interact in unbounded ways",
  files=["lib/md4c/md4c.c", "lib/md4c/wrap.c"], mech=[("parser", "lib/md4c/md4c.c md_parse"), ("tree built from events", "lib/md4c/wrap.c process_file")],
  observe=["events of the parser", "value of process-file"],
  technique="differential monitoring: parser events against an independent reader, process-file against the events; AddressSanitizer",
  note="Exploration: 4,000 generated documents compared with markdown-it and 3,600 documents and damaged files translated per run. Not covered: "
       "unbalanced brackets or backticks inside of a link destination.")

p(id="K02", title="A session or script does exactly what its forms say",
  statement="The command evaluates the forms on its standard input one by one, however they are separated, and prints a numbered prompt for each, "
            "what the form displays and then its value, to the end of the input and with status 0. Run with a file it evaluates the file's forms, "
            "skipping a first line of any length that starts with #, prints only what they display, and gives them the file's name and all "
            "arguments unchanged. Its memory does not grow with the number of forms.",
  over=["sessions", "scripts", "arguments"], quant="every sequence of forms without an unhandled throw, every first line, every list of arguments",
  why="no test runs a session or passes arguments; separators, long lines, odd arguments and long sessions are unbounded",
  files=["main.c", "src/reader.c", "src/runtime.c", "src/types.c"], mech=[("read, expand, evaluate, print", "main.c repl"), ("first line and arguments", "main.c shebang")],
  observe=["the whole standard output", "exit status", "peak resident memory"],
  technique="differential monitoring of whole transcripts against a reference evaluator; AddressSanitizer; memory at two lengths",
  note="Exploration: 760 sessions and 760 scripts per run, and a session of 60,000 forms.")

p(id="K03", title="A host that embeds the language gets the values it asked for",
  statement="Through the functions of cora.h a host makes numbers, strings, bytes, pairs, vectors, symbols and globals and gets back exactly what it put "
            "in, whenever the collector runs. A call of any function, native, interpreted or compiled, by the host, by a native or by an evaluated form, "
            "with exactly, fewer or more arguments than it takes, gives the value the language defines, and calls made one after the other use "
            "no more memory the more there are.",
  over=["histories of operations", "functions and argument counts", "collection schedules"], quant="every history of a host that keeps what it needs in globals",
  why="the tests call through the command only; wrong numbers of arguments from C, and growth over many calls, never occur in them",
  files=["src/export.c", "src/cora.h", "src/runtime.c", "src/types.c"],
  mech=[("calls and the trampoline", "src/runtime.c coraCall coraRun coraReturn"), ("registered natives", "src/runtime.c coraRegisterAPI"), ("values", "src/export.c")],
  observe=["every value, compared deeply", "number of calls of natives", "resident memory"],
  technique="shadow-state monitor over random histories of a host, plain and AddressSanitizer builds; memory of repeated calls",
  note="Exploration: 76 histories of 6,000 to 20,000 operations per run and 12 kinds of calls repeated 80,000 times.")

p(id="C02", title="Bytes on a TCP connection arrive complete, in order, at the right task",
  statement="On every connection, what one end sends is received by the other end complete, in order and unchanged, whatever the sizes of the buffers, the order of the "
            "operations and the speed of the peer: a primitive that would block says how far it came, the end of input and errors are reported as such, and readiness is "
            "reported exactly where it was asked for and exists. Tasks that listen, accept, dial, send and receive make progress independently of each other, each gets the "
            "bytes of its own connection and its own result, also when peers are slow, break off or reset, and the program ends when its tasks have.",
  over=["histories of operations on connections", "peers", "sizes and delays"], quant="every history of operations; every number of tasks and behaviour of their peers",
  why="no test opens a connection to anything but itself; blocking, partial transfers, resets and many connections at once never occur in them",
  files=["lib/net.c", "lib/epoll.c", "lib/async.cora", "lib/cml.cora"],
  mech=[("primitives", "lib/net.c netSend netRecv netDial netAccept netListen"), ("readiness", "lib/epoll.c pollCreate poll pollCtlMod"),
        ("event loop, operations", "lib/async.cora event-loop-add scheduler recv-op send-op accept-op")],
  observe=["result and bytes of every operation", "events polled", "bytes at external peers", "results of tasks", "descriptors left open"],
  technique="trace monitor of histories of socket operations against a stream model, and of tasks against hostile peers that check every byte; AddressSanitizer",
  note="Exploration: 580 histories of up to 150 operations and 460 programs of tasks with up to 30 connections per run. The kernel's delays are not controlled; "
       "what can come from a late delivery is judged only after repeated runs.")

p(id="T01", title="Tracing logs exactly the calls made and changes no value",
  statement="While a function is traced, every call of it, by whatever way it is called, has the value and the effects it has untraced, and the log has exactly one "
            "begin and one end of it for each call; untrace gives back the original function and ends that. The log of trace-enable up to trace-disable, the next "
            "trace-enable or the end of the process is a sequence of complete records that the converter reads, with ends that match the innermost begin, in order of time, "
            "however long it becomes and however long the names are.",
  over=["programs", "functions traced"], quant="every program and choice of functions to trace",
  why="no test enables the trace; whether wrapping changes partial application, tail calls, throw and resume depends on the whole program",
  files=["lib/trace.c", "src/trace.c", "src/trace.h"], mech=[("wrapper of a traced function", "lib/trace.c traceWrap builtinTrace builtinUntrace"), ("records", "src/trace.h traceEmitEvent traceFlush")],
  observe=["value of the program", "every record of the log"],
  technique="differential monitoring against the reference evaluator and an offline checker of the event log; AddressSanitizer",
  note="Exploration: 840 traced programs and logs of up to some MB per run. One thread.")
