import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CACHE=[("per-type field metadata cache","process-wide, filled on first use of a struct type","field.go"),("expression type cache","process-wide, filled on first use of a pointer or slice type","expr/type.go")]
SEAM="none in /repo: the check instruments a copy of the sources at build time (yield points, locks, map order, allocation) through go build -overlay"
p("C01","Concurrent calls on separate values behave as if each ran alone",
 "When any number of goroutines pack, unpack or size values at the same time, each on its own value (they may share types, codecs, byte orders and read-only input bytes), every call returns exactly the bytes, decoded value, size or error that it returns when it runs alone in a fresh process. This holds under every interleaving, also when several of the calls are the first ever to meet a type. No such execution contains a data race.",
 ["schedules","histories","inputs"],"all interleavings of all mixes of Pack, Unpack, SizeOf and BitSize calls over shared types, from a cold or a warm process",
 "The tests run every call on one goroutine; no test starts a second one, so no interleaving of the metadata cache fill, and no shared state at all, is ever exercised.",
 ["field.go","packing.go","decoder.go","encoder.go","structstack.go","expr/type.go"],
 [("lock around the field metadata cache","field.go"),("per-call encoder/decoder state","packing.go")],
 ["return values of Pack, Unpack, SizeOf, BitSize in each goroutine","data races under the simulated schedule"],CACHE,SEAM)
p("C02","Concurrent expression evaluation is independent and race free",
 "Any number of goroutines may parse and evaluate expressions at the same time, sharing parsed programs, resolvers, packages and the values the expressions refer to. Each evaluation returns exactly the result or error it returns when it runs alone in a fresh process, under every interleaving, also when several evaluations are the first to meet a type. No such execution contains a data race.",
 ["schedules","histories","inputs"],"all interleavings of Parse, EvalProgram, Eval and type queries over shared programs, resolvers and types",
 "The tests evaluate each expression once on one goroutine with types that are already known.",
 ["expr/type.go","expr/eval.go","expr/env.go","expr/value.go","expr/package.go","expr.go"],
 [("lock around the expression type cache","expr/type.go"),("immutable parsed programs","expr/ast.go")],
 ["results of Eval, EvalProgram, TypeOf in each goroutine","data races under the simulated schedule"],CACHE[1:],SEAM)
p("C03","Past calls and past failures never change the outcome of later calls",
 "The outcome of a call depends only on its own arguments and on whether expressions have been enabled. No earlier call in the process, whether it succeeded or failed at any point (unusable type definition, short or damaged input, failing codec, failing expression), changes the bytes, decoded value, size or error of any later call on the same or another type.",
 ["histories","fault_sequences","inputs"],"all finite histories of calls with a failure injected at any point of any of them, followed by any call",
 "Each test looks at one call, or one pack/unpack pair, per type; none repeats a call after a failure and none compares a warm process with a fresh one.",
 ["field.go","packing.go","decoder.go","encoder.go","structstack.go","expr/type.go","expr.go"],
 [("caches hold only complete, immutable descriptions","field.go, expr/type.go"),("fresh encoder/decoder per call","packing.go")],
 ["outcome of every call in a history compared with the same call in a freshly restarted process"],CACHE,SEAM)
p("C04","A failing custom codec makes the operation fail with that very error",
 "If a user-supplied codec invoked during packing or unpacking returns an error, at whichever of its invocations, the operation stops there, invokes no further user codec and returns that same error value. A failed pack returns no bytes.",
 ["fault_sequences","inputs"],"every type containing custom codecs (nested in structs, arrays, slices, pointers, conditions, switches), every invocation index at which one fails, every error value",
 "The tests contain two custom types and neither ever fails while nested in another value; no test injects an error at a chosen invocation.",
 ["decoder.go","encoder.go","packing.go"],[("error propagation out of the codec call","decoder.go, encoder.go"),("recovery at the API boundary","packing.go")],
 ["error and data returned by Pack and Unpack","log of codec invocations"],None,SEAM)
p("C05","No run-time fault escapes as a panic or kills the process",
 "Whatever an operation meets at run time (input cut short, damaged or nested however deeply, a value that contains itself or gives impossible widths, a destination that cannot be written, a user codec, size method, byte order or called function that panics with any value or hands back a wrong remainder), packing, unpacking, sizing and evaluating an expression return to their caller, reporting failure as an error. No such fault escapes as a panic, and none terminates the process.",
 ["fault_sequences","inputs"],"every fault kind at every point of every operation over every record type and every damaged input",
 "The tests feed well-formed data and three kinds of unusable type; nothing injects panics or arbitrary damage.",
 ["packing.go","structstack.go","decoder.go","encoder.go","expr/eval.go"],[("recovery at the API boundary","packing.go"),("recovery in expression evaluation","expr/eval.go")],
 ["Pack, Unpack, SizeOf, BitSize, Eval, EvalProgram returning at all"],None,SEAM)
p("C06","Crash recovery of a packed log returns exactly the complete records",
 "Records that are packed and appended one after another to storage can be read back after a crash that cuts the unsynced tail off at any byte. Unpacking the surviving bytes in order returns exactly the records that were stored completely, each equal to what was packed, in order and nothing else, and then reports the torn one as an error.",
 ["crash_points","histories","inputs"],"every sequence of records of every type, every crash point, every surviving prefix of the unsynced tail",
 "The tests round-trip single hand-written records from intact memory; nothing is stored, cut or recovered.",
 ["packing.go","encoder.go","decoder.go","structstack.go","field.go","tag.go"],[("size computation that allocates the output","structstack.go"),("sequential field decoding","decoder.go")],
 ["bytes returned by Pack, values and errors returned by Unpack on the surviving bytes"],None,SEAM)
p("C07","Truncated input is never accepted",
 "If only a proper prefix of an encoding is delivered, and at least one encoded field lacks some of its bytes, unpacking reports an error. It never succeeds with the missing part replaced by zeros, stale data or whatever lies behind the input in memory.",
 ["crash_points","inputs"],"every record type, every value, every cut point, every content of the memory behind the cut",
 "The tests always pass complete input.",
 ["decoder.go","packing.go"],[("bounds checks on the remaining input","decoder.go"),("recovery at the API boundary","packing.go")],
 ["error returned by Unpack on every prefix"],None,SEAM)
p("C08","Damaged bytes decode to what they spell or fail; damage never spreads",
 "When stored bytes are flipped, overwritten or duplicated, unpacking produces exactly the value that the damaged bytes spell under the record's layout, and where they spell none (the input ends early, a size is invalid, a codec rejects them) it reports an error. Fields whose own bytes, position and controlling fields (counts, conditions, selectors, sizes) are intact decode exactly as before, and damage confined to padding or skipped bytes changes nothing.",
 ["fault_sequences","inputs"],"every record type, every stored value, every set of damaged bits",
 "The tests decode intact examples only; which fields a damaged byte reaches is never looked at.",
 ["decoder.go","structstack.go","field.go"],[("bit and byte cursor","decoder.go"),("padding and skip accounting","decoder.go, structstack.go")],
 ["value or error returned by Unpack on damaged bytes"],None,SEAM)
p("C09","Damaged input cannot cause unbounded work or memory",
 "Unpacking n bytes does work and allocates memory bounded by a linear function of n whose factors depend only on the destination type, provided repeated elements occupy at least one bit. A damaged count, length or size expression cannot make it allocate or loop out of proportion to the bytes that are really there, nor make it run forever.",
 ["fault_sequences","inputs"],"every record type with counted, sized or open-ended parts, every damaged or hostile input",
 "The tests use honest counts; no test measures memory or work.",
 ["decoder.go","structstack.go"],[("allocation of counted destinations","decoder.go"),("open-ended repetition","decoder.go")],
 ["bytes allocated and steps taken by Unpack under the simulator"],None,SEAM)
p("C10","Incremental receive delivers each message once, in order, unharmed",
 "A receiver that keeps trying to unpack a growing buffer into the same destination until it succeeds, then drops as many bytes as the library reports for the decoded value, obtains exactly the messages sent: once each, in order, equal to the originals. This holds for every fragmentation, stall, disconnection and resend, and however many failed attempts the reused destination has been through.",
 ["schedules","fault_sequences","inputs"],"every stream of messages of every self-delimiting type, every fragmentation and timing, every connection loss with resend",
 "Every test unpacks once, from a complete buffer, into a zero value.",
 ["decoder.go","packing.go","structstack.go"],[("decoding overwrites the destination","decoder.go"),("size computation","structstack.go")],
 ["messages delivered to the application by the receive loop"],None,SEAM)
p("C11","Callers own their buffers: no memory is shared across a call",
 "Unpacking never writes to the input bytes or to memory next to them, and the value it produces shares no memory with the input, nor its parts with each other or with any other value: the caller may overwrite, reuse or extend any of them at any moment afterwards without affecting the others. Each packed result belongs to the caller alone; no later call and no later change to the packed value alters it.",
 ["schedules","histories","inputs"],"every schedule of buffer reuse by I/O tasks against tasks that hold decoded values or packed results",
 "The tests never touch the input after unpacking nor a packed result after another call.",
 ["decoder.go","encoder.go","packing.go"],[("copying of byte and string payloads","decoder.go"),("fresh output buffer per call","packing.go")],
 ["decoded values after the buffer is scribbled over","buffers and guard bytes after Unpack","earlier results after later calls"],None,SEAM)
p("C12","Expression text from a failing reader never yields a program",
 "Parsing an expression from a reader gives the same program however the reader delivers the text. If the reader fails, or the text ends inside a literal, inside brackets or before an operand, parsing fails, and parsing always stops after work proportional to the text actually read.",
 ["fault_sequences","crash_points","inputs"],"every expression text, every position at which the reader ends, fails or fails temporarily, every reader implementation",
 "The tests parse complete in-memory text only; no reader ever ends early or fails.",
 ["expr/lex.go","expr/parse.go","expr/eval.go"],[("end-of-input handling in the scanner","expr/lex.go"),("expected-token checks","expr/parse.go")],
 ["whether Parse returns, and what the program evaluates to"],None,SEAM)
p("C13","Outcomes are deterministic",
 "Repeating a call with the same inputs yields identical bytes, identical decoded values, identical sizes and the identical error text, whatever the process's hash seed and map iteration order, the scheduling of other calls, and the memory the process happens to use.",
 ["schedules","histories","inputs"],"every call repeated under different map iteration orders, schedules and histories",
 "Each test makes a call once in one process; an outcome that depends on iteration order or on neighbouring calls passes by luck.",
 ["field.go","structstack.go","packing.go","expr/type.go","expr/package.go"],[("ordered processing of fields","field.go")],
 ["bytes, values, sizes and error texts of repeated executions"],CACHE,SEAM)
p("C14","Custom codecs may call back into the library",
 "A user codec, byte order, resolver or function called from an expression may itself pack, unpack, size or evaluate while an outer operation is in progress, on the same or other types, including types the process has not met before, and other goroutines may do the same. Inner and outer operations complete with the outcomes they would have on their own; they neither deadlock nor disturb each other.",
 ["schedules","histories","inputs"],"every nesting of operations through codecs, size methods and called functions, under every interleaving with other goroutines",
 "No custom type in the tests calls the library.",
 ["field.go","decoder.go","encoder.go","structstack.go","packing.go"],[("no lock held and no shared state while user code runs","field.go")],
 ["outcomes of nested operations","operations that never complete"],CACHE,SEAM)
p("C15","A failing expression fails the operation and is never taken for a value",
 "If evaluating an expression fails (a name does not resolve, a resolver or called function panics, a division by zero, an index out of range, operands of the wrong type), the evaluation, or the pack, unpack or size computation that needed it, returns an error and no result. A failure is never taken for false, zero, empty or absent, and when the cause is an error raised by the resolver or called function, that error is what is returned.",
 ["fault_sequences","inputs"],"every expression role (condition, size, bits, in, out, while, switch, case), every evaluation point at which the failure occurs, every failure kind",
 "Five error cases are tested, all direct evaluations of type errors; no expression fails inside an operation.",
 ["expr/eval.go","expr/value.go","structstack.go","packing.go"],[("recovery in expression evaluation","expr/eval.go"),("propagation out of expression use","structstack.go")],
 ["error returned by Eval, EvalProgram, Pack, Unpack, SizeOf, BitSize"],None,SEAM)
p("C16","PNG files survive storage intact and fail safely when storage does not",
 "A well-formed PNG file that is read with the bundled PNG format and written again is byte-identical, whatever chunks it holds. Read from storage that cut, tore or damaged it, it yields exactly the chunks its bytes spell under the layout the format declares, or is reported as an error where they spell none, without a panic and without memory or work out of proportion to the file.",
 ["fault_sequences","crash_points","inputs"],"every sequence of chunks, every cut point, every set of damaged bytes",
 "One 8-chunk-or-less image is read once and written once, intact.",
 ["formats/png/png.go","decoder.go","encoder.go","structstack.go","expr/eval.go"],[("open-ended chunk list with end-of-input condition","formats/png/png.go"),("payload size taken from the parent chunk","formats/png/png.go")],
 ["png.File values and errors from Unpack, bytes from Pack"],None,SEAM)
p("C17","Every call completes, however other calls interleave or fail",
 "No call waits forever: under every interleaving, and however other calls fail (also while a type is being met for the first time, or inside user code), every call returns after a bounded number of its own steps. A failed call leaves nothing locked or half-done that could block a later one.",
 ["schedules","fault_sequences","histories"],"every interleaving of calls, any of which may fail at any point, followed by further calls on the same types",
 "No test runs two calls at once or a call after a failed one on the same type.",
 ["field.go","expr/type.go","packing.go"],[("short critical sections","field.go, expr/type.go")],
 ["calls that have not returned when nothing can run","steps taken per call"],CACHE,SEAM)
p("C18","A shared value can be packed and sized concurrently and is not altered",
 "Packing or sizing a value never alters it, except that count fields are brought in step with the data they count and parent or root references are filled in. Values without such fields can be packed and sized by any number of goroutines at the same time, with the outcome each call has alone and no data race.",
 ["schedules","inputs"],"every interleaving of Pack, SizeOf and BitSize calls on the same shared value of every type",
 "Each test packs a value once, on one goroutine, and does not compare the value before and after.",
 ["encoder.go","structstack.go","packing.go"],[("encoder reads the value only","encoder.go")],
 ["deep snapshot of the value before and after","data races under the simulated schedule"],None,SEAM)
p("C19","Enabling expressions takes effect cleanly at any point of a history",
 "Until expressions are enabled, every operation that needs one reports an error, at whatever point of whatever history, and operations that need none are unaffected. Once enabled, all operations, also those on types that failed or succeeded before, behave exactly as if expressions had been enabled from the start.",
 ["histories","inputs"],"every history of calls with the enabling call at any position",
 "The tests enable expressions and never look at the state before; the switch cannot be turned off again in a process.",
 ["expr.go","structstack.go","packing.go"],[("process-wide switch consulted at evaluation","structstack.go")],
 ["outcomes before and after EnableExprBeta"],[("expression switch","process-wide, off at start","expr.go")],SEAM)
p("C20","A failed pack can be retried on the same value",
 "A pack that failed part-way (a codec or called function failed, at any invocation) leaves the value's data as it was. Packing the same value again once the fault is gone returns exactly the bytes of a pack that never failed, and so does sizing it.",
 ["fault_sequences","histories","inputs"],"every value, every sequence of failing attempts at any invocation before the successful one",
 "No test packs a value twice and none makes a pack fail half-way.",
 ["encoder.go","structstack.go","packing.go"],[("encoder state is per call","packing.go")],
 ["value after the failed attempt","bytes of the retry"],None,SEAM)
# pure functions: not applicable to this family
p("C21","Encodings follow the documented layout",
 "The bytes of a packed value are exactly those its type and struct tags document: field order, widths, byte order, bit order, padding, skips, counts, boolean variants and fixed-length strings.",
 ["inputs","programs"],"every type and tag combination, every value","A handful of layouts is pinned by example.",
 ["packing.go","encoder.go","decoder.go","structstack.go"],[("encoder and decoder","encoder.go, decoder.go")],["bytes returned by Pack"])
p("C22","Size queries agree with the packed length",
 "For every value, the reported size in bytes equals the length of its packed form, and the reported size in bits rounds up to it.",
 ["inputs","programs"],"every type and value","Sizes are pinned for about forty values.",
 ["structstack.go","packing.go"],[("size computation","structstack.go")],["SizeOf, BitSize, Pack"])
p("C23","Struct tags and type strings are accepted or rejected as documented",
 "Every struct tag and type string is either accepted with the documented meaning or rejected with an error.",
 ["inputs","programs"],"every tag string","Roughly a hundred tag strings are listed.",
 ["tag.go","typestr.go","field.go"],[("tag parser","tag.go")],["errors of operations on a type with the tag"])
p("C24","Expressions evaluate as in Go",
 "For every well-formed expression and environment, the result equals that of the corresponding Go expression: precedence, associativity, operand conversion, integer wrap-around and comparison.",
 ["inputs","programs"],"every expression and environment","About fifteen expressions are evaluated.",
 ["expr/parse.go","expr/eval.go","expr/value.go"],[("evaluator","expr/eval.go")],["Eval"])
p("C25","Passing a value or a pointer to it is the same",
 "Packing and sizing give the same outcome whether the value or a pointer to it is passed.",
 ["inputs","programs"],"every type and value","Only two cases pass a struct or custom type by value.",
 ["packing.go","encoder.go","structstack.go"],[("argument unwrapping","packing.go")],["Pack, SizeOf, BitSize"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
