package main

var libReal = []string{"xmltree", "xsd", "xsdgen", "wsdl", "wsdlgen", "internal/gen", "internal/dependency", "internal/commandline", "Go standard library"}
var libStub = []string{"map iteration order, goroutine scheduling, package sync blocking, clock, process environment (simulator)"}

var plans = map[string]plan{
	"C01": {kind: "lib", quick: 8000, thorough: 400000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is a drawn document set (generated schemas or WSDL, or a corpus file) and a drawn option set, generated once in canonical order and four times under permuted map iteration, other log levels, clocks, environments and earlier work. Non-trivial: the reference generation succeeds and at least one map iteration was permuted. Distinct by content of documents and options.",
		real: libReal, stub: libStub},
	"C02": {kind: "lib", quick: 6000, thorough: 300000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is one to three drawn document sets (generated schemas, WSDL, corpus files, some cut off) and a history of two to five parses of them under permuted map iteration, interleaved, from a reused buffer, or after the owner of an earlier result modified it; every function that parses (xsd.Parse, Normalize, Imports, wsdl.Parse) is compared with a first parse in canonical surroundings. Non-trivial: a set of the case parses. Distinct by content of the documents.",
		real: libReal, stub: libStub},
	"C03": {kind: "lib", quick: 6000, thorough: 300000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is a drawn set of up to five schema documents that refer to each other, delivered to the parser five times out of order, with duplicates and with losses. Non-trivial: the complete set parses and a faulty delivery of it parses too. Distinct by content of the documents.",
		real: libReal, stub: libStub},
	"C04": {kind: "lib", quick: 12000, thorough: 400000, batch: 60, capS: 70, level: "exploration",
		rule: "One case is a drawn set of documents (XML trees, schemas, WSDL; some recoded, cut off or in an unknown encoding) in buffers with guard bytes and spare capacity, and a history of three to ten calls that share the buffers, the list of documents, the trees and the models obtained. Non-trivial: a model was parsed or a tree operated on. Distinct by content of the documents.",
		real: libReal, stub: libStub},
	"C05": {kind: "lib-race+lib", quick: 80000, thorough: 2000000, batch: 200, capS: 70, level: "exploration",
		rule: "One case is one or two drawn trees shared by two to four tasks that each make one to five reading calls (search, equality, name resolution, scope joins, unmarshalling, marshalling, encoding to a writer that may fail), under a drawn schedule with a switch possible at every statement, half of the batches with the race detector. Non-trivial: the schedule switched tasks at least once. Distinct by content of the documents.",
		real: libReal, stub: libStub},
	"C06": {kind: "lib-race+lib", quick: 12000, thorough: 400000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is two to four pipelines (generate source, parse schemas, normalize, parse WSDL, build and modify trees, list imports, look up names), each with its own configuration, files and buffers, run under a drawn schedule with a switch possible at every statement, half of the batches with the race detector. Non-trivial: the schedule switched tasks at least once. Distinct by documents, options and kinds.",
		real: libReal, stub: libStub},
	"C07": {kind: "lib", quick: 16000, thorough: 400000, batch: 60, capS: 70, level: "fault_enumeration",
		rule: "One case is a drawn tree, or a subtree or modification of it, encoded to writers that fail: at every byte position if the encoding has at most 300 bytes, else at up to 150 ends of write calls and 60 drawn positions; wholly or in part, for good or for one, two or five writes. Non-trivial: the encoding is not empty. Distinct by encoding.",
		real: libReal, stub: []string{"the io.Writer"}},
	"C08": {kind: "lib", quick: 3000, thorough: 100000, batch: 20, capS: 70, level: "fault_enumeration",
		rule: "One case is a drawn command line of xsdgen or wsdlgen (through main, Config.GenCLI, GenCLI or GenSource; imports followed or not) over drawn documents and a drawn old output. The command's system calls on its files are listed by a faultless run; then a fault of a drawn kind is injected at each of them that is not part of writing, and each input is drawn to be missing, a directory, a dangling link or cut off. Non-trivial: the faultless run succeeds. Distinct by command, output, old output and system calls.",
		real: libReal, stub: fsStub},
	"C09": {kind: "lib", quick: 2400, thorough: 100000, batch: 5, capS: 70, level: "fault_enumeration",
		rule: "One case is a command as in C08 with a drawn old output. Three faults of drawn kinds, crashes before, during and after, and a pair of faults are injected at each system call that creates, writes or closes the output, further ones at calls that read; then a disk that fills up, loss of output after a crash, and reruns. Non-trivial: the faultless run succeeds. Distinct by command, output, old output and system calls.",
		real: libReal, stub: fsStub},
	"C10": {kind: "lib", quick: 6000, thorough: 200000, batch: 20, capS: 70, level: "exploration",
		rule: "One case is a drawn graph of up to 260 schema files (ladders of diamonds, rings, complete graphs with self-imports, chains with a way back, random) with imports and includes, some without a location or with another spelling of the path, and start files. Generating with -f is compared with naming every reachable file; four times a reachable file is missing, cut off or fails at a system call. Non-trivial: more than one file is reachable. Distinct by documents and start files.",
		real: libReal, stub: fsStub},
	"C11": {kind: "lib", quick: 8000, thorough: 400000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is one to three drawn document sets (some cut off, incomplete or with a missing file), drawn options, and a history of three to fourteen steps on one configuration and a second one made from the same option values: generations, options applied, undone, redone. Each generation is compared with that of a fresh configuration with the options in force in a fresh process. Non-trivial: a generation that must succeed comes after another one. Distinct by documents, options and history.",
		real: libReal, stub: libStub},
	"C12": {kind: "soap-race+soap", quick: 18000, thorough: 600000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is a generated client, two to five tasks with one to three calls each of its operations with drawn arguments, and a drawn fate of each call (response, fault, transport error, broken or non-SOAP response, deadline) with drawn delays. Every call is made alone and then among the others on one shared client, under a drawn schedule with a switch possible at every statement of the generated code and every network event, half of the batches with the race detector. Non-trivial: the schedule switched tasks at least once. Distinct by document, arguments, delays and responses.",
		real: soapReal, stub: soapStub},
	"C13": {kind: "soap", quick: 12000, thorough: 300000, batch: 20, capS: 70, level: "fault_enumeration",
		rule: "One case is an operation of a generated client and two drawn responses (envelopes with the operation's result in two forms, or faults, in drawn notations). One client makes a long series of exchanges: the response in ten drawn deliveries (read sizes, empty reads, delays, statuses), cut off or failing at every byte position (420 positions of a long one), complete again in between, transport errors, bodies that are not SOAP, further faults. Non-trivial: a complete response without fault succeeds. Distinct by operation, arguments and responses.", real: soapReal, stub: soapStub},
	"C14": {kind: "soap", quick: 24000, thorough: 300000, batch: 20, capS: 70, level: "fault_enumeration",
		rule: "One case is three drawn calls with a drawn fate, delivery and delays. Each is cancelled or times out (own context or its parent) before, at and after every event of the exchange (call, headers, each chunk, end) and at drawn instants while the server is silent before the headers or at a drawn byte; alone or with up to four calls at once, some of which nobody cancels. Ten more calls check that responses are closed. Non-trivial: calls and cancellations ran interleaved. Distinct by operations, arguments, delays and responses.", real: soapReal, stub: soapStub},
	"C15": {kind: "soap", quick: 24000, thorough: 300000, batch: 20, capS: 70, level: "fault_enumeration",
		rule: "One case is one to three drawn values of generated types. Their encodings are decoded in pieces, cut off or failing at every byte position (360 of a long one), with damaged numbers, booleans, times and binary values, several in one stream that breaks off, and by tasks interleaved at their reads; they are encoded to writers that fail at drawn positions. Non-trivial: a value could be encoded and decoded. Distinct by type and encoding.", real: soapReal, stub: soapStub},
	"C21": {kind: "lib", quick: 8000, thorough: 400000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is a drawn document set (schemas, WSDL, XML, corpus files) and two to five rounds of one to three storage faults each: blocks of a drawn size, lines, tags, elements, names, attributes or values lost, cut, overwritten, repeated, misplaced or taken from another file, bits flipped, torn writes. Each round hands the damaged documents to the tree, schema and WSDL parsers, the import lister and the generators, then or at the same time undamaged ones. Non-trivial: damaged documents of a round are well-formed. Distinct by content of the damaged documents.",
		real: libReal, stub: []string{"storage and transfer of the documents (damaged as the simulator decides)", "map iteration order, goroutine scheduling (simulator)"}},
	"C23": {kind: "lib", quick: 8000, thorough: 200000, batch: 20, capS: 70, level: "fault_enumeration",
		rule: "One case is a command line of xsdparse over drawn schema documents, with or without -ns. Its system calls are listed by a faultless run; then faults of drawn kinds are injected at each of them twice, standard output fills up at drawn positions, each input is missing, a directory or cut off, and map iteration is permuted. Non-trivial: the faultless run succeeds and prints something. Distinct by command, output and system calls.",
		real: append([]string{"cmd/xsdparse"}, libReal...), stub: fsStub},
	"C24": {kind: "soap-race+soap", quick: 32000, thorough: 600000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is one to three drawn values of generated types of one package, shared by two to five tasks with one to five calls each: encode a shared value (some to a writer that fails), encode an own value, convert to text and back, decode from a stream in pieces, cut off or damaged; a switch is possible at every statement of the generated code and at every read, half of the batches run with the race detector. Each call is compared with the same call alone. Non-trivial: the schedule switched tasks at least once. Distinct by types and encodings.",
		real: []string{"types and methods generated by the working tree's xsdgen and wsdlgen", "encoding/xml, Go standard library"}, stub: []string{"readers and writers (simulated streams)", "goroutine scheduling, clock (simulator)"}},
	"C25": {kind: "lib-race+lib", quick: 40000, thorough: 1000000, batch: 100, capS: 70, level: "exploration",
		rule: "One case is two to four tasks that each modify a tree of their own (SetAttr, fields assigned, children added, removed, moved, scopes joined) and read it and a common tree in between (searches, names, scopes, encodings, some to failing writers), one to eight steps each; some trees are parsed from one buffer. Compared with the modifications alone and with each task alone; a switch is possible at every statement, half of the batches run with the race detector. Non-trivial: the schedule switched tasks at least once. Distinct by content of the documents.",
		real: []string{"xmltree", "Go standard library"}, stub: []string{"writers (failing as drawn)", "goroutine scheduling (simulator)"}},
	"C16": {kind: "lib", quick: 8000, thorough: 400000, batch: 40, capS: 70, level: "exploration",
		rule: "One case is a drawn document set, drawn options, two to eleven names (declared, anonymous, built-in, unknown, document types) and a history of four to 23 lookups and generations of source on one result under permuted map iteration; each answer is compared with the first lookup on a fresh result in a fresh process, each source with that of a result without lookups, and the answers for declared types with the declared identifiers. Non-trivial: a lookup comes after another one. Distinct by documents, options and history.",
		real: libReal, stub: libStub},
}

var soapReal = []string{"code generated by the working tree's wsdlgen and xsdgen", "net/http Client, encoding/xml, Go standard library"}
var soapStub = []string{"http.RoundTripper (simulated network and server)", "context cancellation and deadlines, clock, goroutine scheduling (simulator)"}

var fsStub = []string{"system calls on the command's files (real calls on a scratch directory, failing as the simulator decides)", "process exit and crash (the command's task ends; files are frozen)"}
