#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=observe,hook_needed=hook)))

LOADF=["webrpc.go","schema/parser.go","schema/schema.go","schema/ridl/ridl.go","schema/ridl/parser.go","schema/ridl/lexer.go","schema/ridl/tokenizer.go"]

p("C01","A schema load is all or nothing under storage faults",
 "Loading a schema file (RIDL with any tree of imports, or JSON) yields either an error or exactly the schema that the complete files describe: every type, error, service and method of the root file and of everything it imports, each exactly once, in declaration order, with selective imports honoured and shared (diamond) imports not duplicated; two definitions of one name or error code are an error, never a choice between them. Read errors, interrupted and short reads, vanished or unreadable files at any point never produce a partial, altered or stale schema, and short or interrupted reads alone are not an error. Once the fault is gone, loading the same path again succeeds with the complete schema.",
 ["fault_sequences","inputs","histories"],
 "every import tree (depth, diamonds, selective imports, aliases of a path), every position and kind of storage fault during the load, every sequence of failed and retried loads",
 "Tests load a handful of intact files from an in-memory file system; none injects a read error, a short read or a missing file in the middle of an import tree, retries after a failure, or imports the same file along two paths with services in it.",
 LOADF+["schema/ridl/import_parser.go","schema/ridl/internal/graph/graph.go"],
 [("whole file is read before parsing; any read error aborts the load","schema/ridl/ridl.go parse"),("import cache shared by one load; merge of imported definitions","schema/ridl/ridl.go parse, importParser"),("file type dispatch and os.DirFS root","webrpc.go ParseSchemaFile")],
 ["result and error of ParseSchemaFile / ridl.NewParser(...).Parse()","system calls issued by the load"],
 [dict(name="cache",meaning="import path -> schema parsed in this load",where="schema/ridl/ridl.go Parser.cache")])

p("C02","Damaged source never crashes, hangs or silently loses definitions",
 "Loading a schema file whose bytes were damaged in storage (truncated at any byte, zeroed or garbled ranges, lost or duplicated blocks, replaced by another document) always finishes, with a schema or with an error, and never crashes the process, hangs or leaves a goroutine behind. When it does return a schema from a damaged RIDL file, no definition whose own text is intact in the file has been silently dropped, wherever in the file the damage lies.",
 ["fault_sequences","inputs"],
 "every byte position and length of a torn, zeroed, garbled, lost or duplicated range in any file of an import tree, RIDL or JSON",
 "Syntax-error tests cover a few hand-written malformed lines; the space of torn and corrupted files is unbounded and the parser runs in helper goroutines where a panic kills the whole process.",
 LOADF+["schema/type.go","schema/var_type.go","schema/service.go","schema/error.go","schema/ridl/struct_parser.go","schema/ridl/enum_parser.go","schema/ridl/service_parser.go","schema/ridl/error_parser.go","schema/ridl/type_parser.go"],
 [("lexer stops only at end of input; unknown characters become error tokens","schema/ridl/lexer.go lexDefaultState"),("parser reports unexpected tokens as errors","schema/ridl/parser.go stateError"),("schema validation rejects malformed documents","schema/schema.go Validate")],
 ["result and error of the load","panics in any goroutine","steps taken","goroutines left"])

p("C03","A load sees one version of each file",
 "When schema files are being replaced (atomically, one file at a time) while a load runs, a load that succeeds returns exactly the schema obtained from one single version of every file in the import tree, each of them a version that existed at some moment during the load. A file imported along several paths contributes that one version once; definitions of two versions of one file are never combined.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of atomic file replacements and deletions with the steps of one or more loads over every import tree",
 "Tests never modify a file during a load; whether one version is used depends on which file is opened when and on the import cache.",
 ["schema/ridl/ridl.go","webrpc.go"],
 [("each file is read in one go, once per load, and its parse result is reused for later imports","schema/ridl/ridl.go parse, Parser.cache")],
 ["schema returned by the load compared with the versions the simulated disk held during the load"])

p("C04","Concurrent loads do not affect one another",
 "Any number of loads running at the same time in one process, over the same or different and overlapping files, some of them failing, each return the same schema or the same error that the same load returns when it runs alone, under every interleaving. Concurrent loads, and concurrent uses of their results, involve no unsynchronised access to shared memory.",
 ["schedules","inputs","fault_sequences"],
 "every set of concurrent loads (RIDL and JSON, valid and invalid, with and without storage faults directed at one of them) and every interleaving of their goroutines and I/O",
 "Every existing test runs one load at a time; a shared cache, buffer or package variable would be invisible to all of them.",
 LOADF+["schema/ridl/internal/graph/graph.go"],
 [("all parser, lexer and import state is per load","schema/ridl/ridl.go NewParser, schema/ridl/parser.go newParser, schema/ridl/lexer.go newLexer")],
 ["result of each concurrent load against its solo result","race detector reports under controlled schedules"])

p("C05","Every load terminates and leaves nothing running",
 "Under every scheduling of its internal goroutines, and whether it succeeds, fails in the lexer, parser, resolution, validation or in an import, or hits an I/O error, a load returns within a number of steps bounded by the size of its input, without deadlock. When it has returned, no goroutine, open file or other resource of it remains.",
 ["schedules","inputs","fault_sequences"],
 "every interleaving of lexer, parser and collector goroutines, every input that stops the load at any token, every I/O fault position",
 "Tests only look at returned values under the default scheduler; a goroutine stuck on a channel, or an unclosed file after an error, fails no assertion.",
 ["schema/ridl/lexer.go","schema/ridl/tokenizer.go","schema/ridl/parser.go","schema/ridl/ridl.go","schema/ridl/definition_parser.go"],
 [("lexer goroutine feeds a channel that is drained to EOF","schema/ridl/lexer.go run, tokenizer.go tokenize"),("parser goroutine ends after emitting its last node, error or EOF","schema/ridl/parser.go run, collect, stateError")],
 ["goroutines of the load alive after it returned","open file descriptors","scheduler steps per input byte"])

p("C06","Loading and generating are deterministic",
 "The same files and options always give the same result, byte for byte: the schema, its JSON form, its hash, generated code and the text of errors do not depend on goroutine scheduling, map iteration order, the clock, what the process loaded before, or which process runs.",
 ["schedules","inputs","histories"],
 "every schedule, every map iteration order, every earlier history of the process, for every schema and option set",
 "A test process sees one schedule and one map order per run, and asserts on schemas with too few annotations, imports or options for order to show.",
 LOADF+["gen/gen.go","gen/funcmap.go","gen/funcmap_dict.go","gen/funcmap_string.go","gen/funcmap_generic.go","cmd/webrpc-gen/main.go","schema/service.go"],
 [("ordered slices for everything that is emitted; JSON encoder sorts maps","schema/schema.go ToJSON, SchemaHash"),("sorted output of dictionaries","gen/funcmap_dict.go, gen/funcmap_generic.go")],
 ["JSON, hash, generated code and error text of repeated runs"])

p("C07","Circular imports are always reported, other imports never are",
 "Loading a file whose imports lead back to a file that is still being loaded, by a cycle of any length, directly or through any lexical spelling of the path (./, ../, repeated slashes), ends with an error that says the import is circular, after reading each file a bounded number of times. An acyclic import graph, however often it shares files, is never reported as circular; and files being replaced during the load (so that a cycle appears or disappears while the tree is walked) cannot make it recurse without end.",
 ["histories","schedules","inputs"],
 "every import graph, every spelling of paths, every sequence of file replacements during the walk",
 "Tests check a few fixed cyclic graphs; they cannot cover arbitrary graphs, nor graphs that change while they are walked.",
 ["schema/ridl/ridl.go","schema/ridl/internal/graph/graph.go","schema/ridl/import_parser.go"],
 [("import graph shared by the whole load, checked at each import","schema/ridl/ridl.go importParser, internal/graph"),("paths are normalised before use as keys","schema/ridl/ridl.go parse")],
 ["error text","number of opens per file","steps taken"],
 [dict(name="imports",meaning="graph of import edges seen in this load",where="schema/ridl/ridl.go Parser.imports")])

p("C08","A failed load names the file that failed and how it was reached",
 "When a load fails because of one file in the import tree (it cannot be read, does not parse, does not resolve, or does not validate), the error text carries the cause and, when that file is an import, the path of the failing file and of each importing file up to the root, innermost first. Syntax errors carry the line at which the file went wrong. This holds for whichever file and operation the fault hits.",
 ["fault_sequences","inputs"],
 "every choice of failing file in every import tree and every kind of failure (I/O error at any operation, damage at any line)",
 "Two tests check the trace for two fixed files; the failing file, the depth and the kind of failure are otherwise unexplored.",
 ["schema/ridl/ridl.go","schema/ridl/parser.go","webrpc.go"],
 [("error wrapped once with the chain of parsers","schema/ridl/ridl.go newImportError, importError"),("position of the current token in syntax errors","schema/ridl/parser.go stateError")],
 ["error text returned by the load"])

p("C09","A loaded schema can be shared by concurrent consumers",
 "After a successful load, any number of goroutines may concurrently serialise the schema, hash it, look definitions up, analyse it and generate code for different targets from it: each gets the result it would get alone, the schema is left unchanged, and no unsynchronised write to shared memory takes place.",
 ["schedules","inputs"],
 "every set of concurrent read-only operations and generations on one schema (with a base path set), under every interleaving",
 "No test uses one schema from two goroutines; lazily filled caches or temporary mutation would go unnoticed.",
 ["schema/schema.go","schema/helpers.go","schema/type.go","schema/var_type.go","schema/service.go","gen/gen.go","gen/template_source.go","gen/funcmap.go"],
 [("read-only accessors; no package-level mutable state","schema/schema.go ToJSON, SchemaHash; schema/helpers.go"),("templates are loaded per generation","gen/template_source.go loadTemplates")],
 ["results per goroutine against solo results","deep comparison of the schema before and after","race detector reports under controlled schedules"])

p("C10","Remote templates are used as one complete published set",
 "A generation from a remote template target that succeeds has used exactly the complete set of template files of one version published upstream: never a mixture of versions, never a set with files missing or cut short. This holds whatever fetch failures, truncated downloads, disk errors, process crashes at any point of filling the cache, and other generator processes sharing the cache directory came before or run at the same time (the upstream ref itself not moving in the middle of one fetch).",
 ["crash_points","fault_sequences","schedules","histories"],
 "every history of generations, upstream releases that add, change or remove template files, network and disk faults, crashes at every system call, and interleavings of processes sharing the cache",
 "No test exercises the template cache; the failing histories need a crash or fault in the middle of a refresh, or two processes at once.",
 ["gen/template_source.go","gen/gen.go"],
 [("cache directory filled after a fetch, timestamp file written last","gen/template_source.go cacheTemplates"),("cache considered available only with a timestamp","gen/template_source.go openCacheDir")],
 ["text rendered from versioned templates","files left in the cache directory"],
 [dict(name="cache directory",meaning="template files, info file, timestamp file",where="gen/template_source.go, $TMPDIR/webrpc-cache")])

p("C11","The template cache is fresh when it should be and a fallback when it must be",
 "A generation uses cached templates without contacting upstream only if they were fetched within the last hour and no refresh was requested; otherwise it fetches and, on success, renders and stores the version upstream has now. If fetching fails and a complete cached copy exists (and no other process is replacing it at that instant), the generation succeeds from that copy, reports its true age, version and the refresh failure; an upstream that stops answering counts as failed after a bounded time, and a refresh that fails or dies while it writes leaves the old or the new copy; a cache that cannot be written does not prevent a successful generation. Once faults stop, the next generation after the hour (or with refresh requested) uses the current upstream version, also after the clock has been moved back or forth. Templates embedded in the tool (those of the versions in its go.mod) never need the network; other versions of the same targets are fetched.",
 ["histories","fault_sequences"],
 "every history of generations, releases, outages, disk faults and clock movements (advance, jump forward, jump back)",
 "Freshness depends on an hour of elapsed time and on failures of the network; no test controls either.",
 ["gen/template_source.go","gen/gen.go","cmd/webrpc-gen/main.go"],
 [("one hour limit on cache age, refresh flag","gen/template_source.go loadRemote, templateCacheTTL"),("fallback to cache when fetching fails","gen/template_source.go loadRemote"),("summary of version, age and refresh failure","cmd/webrpc-gen/main.go")],
 ["requests received by simulated upstream","rendered version","reported age, version and refresh error"])

p("C12","webrpc-gen exits 0 only with the complete output written",
 "When webrpc-gen exits with status 0, the requested output (the -out file or standard output) holds exactly the complete code generated for the given schema, options and target; when anything it needed failed (reading the schema, loading templates, rendering, creating directories, writing the file or standard output), it exits non-zero with a message on standard error. It never modifies or removes any file other than the output file and its template cache, and running it again, over its own output and also after the sources or templates changed, once the fault is gone produces the complete output. With -target=X -help it prints the help of the target, or says why that cannot be rendered; with -version it exits 0 only if it printed the version.",
 ["fault_sequences","crash_points","inputs"],
 "every position and kind of I/O fault during a run (including full disks, write errors and short writes on file and standard output), every option set (target, service, match, ignore, tree shaking, version override)",
 "The command has no tests at all; exit status after a failed or short write depends on the fault hitting one particular call.",
 ["cmd/webrpc-gen/main.go","gen/gen.go","schema/schema.go","webrpc.go"],
 [("each step's error leads to exit 1","cmd/webrpc-gen/main.go main"),("whole output is rendered in memory before it is written","gen/gen.go Generate, cmd/webrpc-gen/main.go writeOutfile")],
 ["exit status, standard output, standard error","content of every file on the simulated disk before and after"])

p("C13","webrpc-test reports readiness and conformance truthfully and in time",
 "webrpc-test -waitForServer exits 0 only if a server answered its GetEmpty call with success within the timeout, does so whenever a test server is reachable for a while within that time, and otherwise ends with an error at the timeout, not before and not much later. webrpc-test -client exits 0 only if every call of the test protocol got an answer that passes the checks of the protocol, and does so against a test server that stays reachable. webrpc-test -server serves correct answers on all addresses from its start until its timeout and then exits by itself; it exits at once and non-zero if it cannot listen. webrpc-test -printRIDL, -printJSON and -version exit 0 only if what they print was written completely, and the printed JSON is the same schema as the printed RIDL. Failures come with a message on standard error. This holds under refused, delayed, stalled and cut connections, partitions, spoilt answers and server restarts.",
 ["fault_sequences","schedules","histories"],
 "every timing of server start, stop and restart relative to the client, every pattern of network faults and delays, every timeout value",
 "One test runs client against server over a healthy loopback connection; start-up races, outages and timeouts are not exercised.",
 ["cmd/webrpc-test/main.go","tests/client/client.go","tests/server/server.go"],
 [("polling until the context expires","tests/client/client.go Wait"),("exit status from the collected errors","cmd/webrpc-test/main.go main"),("shutdown after the timeout","tests/server/server.go RunTestServer")],
 ["exit status, standard output and error, simulated time at exit","requests served"])

p("C14","A remote call returns its own exact answer or an error",
 "Every call made with the generated Go client against the generated Go server returns either exactly what the handler produced for that very call or a non-nil error; declared errors arrive with their code, name, message, cause and HTTP status, and anything else (unreachable peer, cut response, a foreign status, a result that is no JSON) arrives as a transport-level error. The handler runs at most once per call, and a call whose context ends returns promptly, whatever the network delays, cuts or reorders across connections.",
 ["fault_sequences","schedules","inputs"],
 "every workload of concurrent calls and every pattern of connection faults, delays, cancellations and deadline expiries",
 "The interoperability test makes sequential calls over a healthy connection.",
 ["tests/client/client.gen.go","tests/server/server.gen.go"],
 [("client maps transport failures and bad bodies to errors","tests/client/client.gen.go doHTTPRequest"),("server encodes results and errors","tests/server/server.gen.go sendErrorJSON")],
 ["call results against a log of handler executions"])

p("C15","One bad request or handler cannot disturb others",
 "A generated Go server answers every complete request with exactly one well-formed response of the documented kind (result, declared error, bad route, bad method, bad request, bad content type, server panic; after a handler panic that nothing recovers the connection may also just be closed), and a handler panic, malformed or truncated request, slow or vanishing client affects no other request in flight and leaves the server serving.",
 ["schedules","fault_sequences","inputs"],
 "every interleaving of good calls with malformed, truncated, slow, aborted and panicking ones",
 "No test sends a malformed request or panics in a handler while other calls are in flight.",
 ["tests/server/server.gen.go","tests/server/server.go"],
 [("deferred recover writes the panic error","tests/server/server.gen.go ServeHTTP"),("route, method and content type checks","tests/server/server.gen.go ServeHTTP")],
 ["raw responses per request","server availability afterwards"])

p("C16","The tool knows its version whatever its helper commands do",
 "The version that webrpc tools report and embed in generated code is the one set at link time; otherwise the first non-empty answer, without surrounding white space, of the module query (go list -m) and then of the repository description (git describe --tags, which has no answer without a tag); otherwise the word unknown. What a command printed before it failed may be taken or left. Missing, failing, or empty-handed helper commands never crash the tool and never leave the version empty.",
 ["fault_sequences","configurations"],
 "every combination of outcomes of the helper commands (absent, failing, killed, printing nothing or only white space, printing a version)",
 "The inference runs once at process start with whatever tools the test machine has.",
 ["version.go"],
 [("fallback chain","version.go inferRuntimeVersion")],
 ["version reported by the tool"])

p("C17","A stream delivers exactly what its handler wrote and says how it ended",
 "A client reading a stream from a generated Go server receives every message the handler wrote, each once and, for messages of one goroutine, in order, until the stream ends; the end is reported as finished only if the handler returned without error and nothing was lost, as the handler's own error if it returned one or panicked, as aborted only if the client's own context ended, and as lost otherwise. While the handler is busy something is sent at least every keep-alive interval, a handler learns soon that its client is gone, nothing is written to a response after its handler has returned or from two goroutines at once, and ordinary calls over the same connections afterwards are unaffected.",
 ["fault_sequences","schedules","inputs"],
 "every set of concurrent streams with any pattern of messages, pauses, errors, panics, cancellations, slow readers, connection faults, partitions and server crashes",
 "The streaming example's test reads one stream over a healthy connection.",
 ["_examples/webrpc-streaming/proto/chat.gen.go"],
 [("mutex around writes, keep-alive goroutine","_examples/webrpc-streaming/proto/chat.gen.go streamWriter"),("end of a stream mapped to errors","_examples/webrpc-streaming/proto/chat.gen.go streamReader.handleReadError")],
 ["messages and end seen by each reader against what its handler wrote"])

p("N01","RIDL grammar and type expressions are interpreted as documented",
 "Every syntactically valid RIDL document is accepted and every invalid one rejected, and each type expression, annotation, comment, default and error declaration is represented in the schema as the documentation says.",
 ["inputs"],"every RIDL text",
 "Tests sample a few dozen documents.",
 ["schema/ridl/lexer.go","schema/ridl/parser.go","schema/ridl/type_parser.go","schema/var_type.go"],
 [("state-machine lexer and parser","schema/ridl")],["AST and schema"])
p("N02","RIDL and JSON forms of a schema are equivalent",
 "Serialising a loaded schema to JSON and loading that JSON gives the same schema again, with the same hash and the same generated code.",
 ["inputs"],"every valid schema",
 "Tests compare a few fixed documents.",
 ["schema/schema.go","schema/parser.go","schema/var_type.go","schema/type.go"],
 [("JSON encoding of the AST; types re-parsed from expressions","schema/schema.go, schema/var_type.go")],["JSON before and after"])
p("N03","Schema validation accepts exactly the well-formed schemas",
 "Validation rejects duplicate or invalid names, unknown types, invalid map keys, clashing error codes, bad base paths and misuse of streams, and accepts every schema without such defects.",
 ["inputs"],"every schema",
 "Tests check single examples of each rule.",
 ["schema/schema.go","schema/type.go","schema/service.go","schema/error.go"],
 [("Parse methods of each element","schema/*.go")],["error of Validate"])
p("N04","Big-integer analysis finds exactly the fields that need it",
 "The big-integer helpers report every struct, field and method message that directly or transitively contains a big integer, and no other.",
 ["inputs"],"every schema, including recursive ones",
 "Tests check a few acyclic schemas.",
 ["schema/helpers.go"],[("recursive walk with memo","schema/helpers.go")],["returned map"])
p("N05","Template functions compute what their documentation says",
 "Each function offered to code-generation templates returns the documented value for every argument, and fails with an error rather than a wrong value on arguments it does not support.",
 ["inputs"],"every argument list",
 "Tests check a handful of functions on fixed arguments.",
 ["gen/funcmap.go","gen/funcmap_types.go","gen/funcmap_string.go","gen/funcmap_dict.go","gen/funcmap_flow.go","gen/funcmap_generic.go"],
 [("function map","gen/funcmap.go")],["rendered text"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
