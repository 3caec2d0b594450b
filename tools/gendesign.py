import json,glob,os
head = r'''# Deterministic simulation with fault injection for go-restruct/restruct

restruct is a library: it starts no threads and owns no clocks, sockets or files. What a deterministic
simulator can decide about it is everything that depends on *who calls it, in which order and
interleaving*, and on *what the surfaces it is handed do*: caller goroutines that share its global
caches, user codecs / size methods / byte orders / resolvers / functions that fail, panic, lie or call
back, readers that fail, bytes that come from storage or a connection which cut, tore, reordered,
damaged or re-sent them, and a process that crashes in between. The "nodes" are caller tasks, receivers
and a store; "network and disk" are the byte slices handed to Unpack; a "crash" is a simulated process
restart. There is no simulated clock because nothing in the library reads one: simulated time is counted
in scheduling steps (one per statement of the library or of a simulated user codec).

## 1. The simulator

**Instrumentation (no hooks in /repo).** Every check first runs `sim/cmd/instr` over the *current working
tree* of /repo (packages `restruct`, `expr`, `formats/png`) and builds the result through
`go build -overlay`. The overlay copy has, type-directed and purely by adding to the source:
* a scheduling point before every statement (≈2090 sites), and a "hot" one at every use of mutable
  package state (25 sites);
* `sync` replaced by `sim/simsync` (Mutex, RWMutex, Once, WaitGroup, Pool, Map, Cond, atomics): blocking
  is seen by the scheduler, happens-before edges are still given to the race detector;
* `range` over maps in an order drawn from the seed (3 sites), `make`/`reflect.MakeSlice` metered (8+2);
* every package variable reset by a generated `simReset` (24), which re-runs the initialisers: a
  *simulated process restart* costs microseconds, so each call can be compared with the same call alone
  in a fresh process.
The present tree starts no goroutine and has no channel, clock or random number, but a change may bring
them: goroutines, channel operations, `select`, `time` (Now, Sleep, After, timers: a virtual clock that
advances when nobody can run) and `math/rand` (seeded) are rewritten to the simulator's versions as well.
What it does not know how to seam (finalizers, `os`, cgo …) is listed as "unseamed" on the console and
in the build's report; the rest of the check still runs.
With no overlay the shipped code is byte-for-byte what /repo holds; the guard is "not using the overlay".

**Scheduler** (`sim/simrt`). Tasks are goroutines parked and released one at a time. Policies: sequential,
random with separate switch probabilities at hot and cold points, PCT (random priorities, d change
points), "few" (1–3 preemptions anywhere), and replay of a recorded trace. Deadlock = nobody runnable and
somebody waiting. Every task has a step and an allocation limit; exceeding one ends it with a verdict.

**Race builds.** C01, C02, C14, C18 run half of their workers under the Go race detector. The scheduler's
own hand-over is hidden from it (`race.Disable` around parking) so it sees exactly the synchronisation
the library performs; what it reports is a race of the library under that schedule, not of the harness.

**Plans.** One seed → one `Plan` (JSON: types, values, calls, faults, policy, map seed). Running a plan is
a pure function of plan and code. `simcheck selftest PROP` runs many seeds twice, in one and in several
processes, and compares hashes over all outcomes and switches.
A violation is re-run in a fresh process, shrunk (drop tasks, calls, types, fields, faults, edits; simpler values;
fewer switches; the recorded schedule replaces the policy) while the same class of violation persists,
written to `replays/`, replayed once more in a fresh process, and only then reported. When only the
process history (a prefix of seeds) makes it happen, the replay file names that prefix.
`./replay FILE` reproduces it. A violation that does not replay ends in exit 2, never in VIOLATION.

**Layouts** (`sim/spec`). A plan describes types as *specifications*; `spec.Build` turns them into Go types
with `reflect.StructOf` and tags (plus statically written ones where reflection cannot: methods, named
types, recursive types, local types of equal name, embedded ones). Covered: all integer, float, complex
and bool kinds, strings, byte slices, slices, arrays, pointers, nested and embedded structs, named basic
types, `[n]T`/type overrides, bit widths, order and bit-order tags, skip, `sizeof`/`sizefrom`, `size`,
`bits`, `if`, `in`/`out`, `while`, `switch`/`case`/default, `variantbool`/`invertedbool`, parent/root,
ignored and blank fields, custom codecs of every shape (packer only, unpacker only, by value, by pointer,
sized, nested, in lists, behind pointers, whole-struct codecs, on named bools, integers, floats, arrays,
byte lists and maps, towers of codecs that pack further records with the library), padding of every kind and
width (arrays, structs, bits), lists and arrays stored as elements of another width or as arrays with more
room than elements, floats stored as the other float (with zeros of both signs, infinities, NaN), switch
cases of a kind other than the selector's, values and counts that do not fit their encoding, conditions on
floats, text, own earlier lists and parents several levels up, literals in all spellings, and deliberately
unusable tags. Options are drawn per run (swarm style).

**Reference model** (`sim/spec/model.go`, `ex.go`). An independent codec and an independent expression
evaluator that work on the specification, never on tags or /repo code. It says for a byte string: the
value it spells, or that it spells none, and which bits are data, control (counts, conditions, selectors,
sizes) or padding. It is cross-checked by `cmd/modeltest` (encode/decode/prefix/damage over 20 000 –
100 000 layouts: 0 disagreements on the present tree).

**User code** (`sim/user`). Codecs, size methods, byte orders, resolvers, lazy packages, functions, each
reporting to a fault controller before and after its work: the k-th callback may return an error (9
kinds: known, wrapped, empty text, typed nil, slice-typed, raised late, with remainder …), panic (21
kinds: errors, strings, nil, runtime errors, unhashable, cyclic, func, pointer values …), return a wrong
remainder (6 kinds) or size (4 kinds), or make nested library calls. A call can be repeated hundreds of
times within one history (`Op.Rep`): what adds up (pools, caches, stacks that grow) shows after many.

## 2. How each property is decided

| id | world | what is generated, what is injected | oracle |
|----|-------|------------------|--------|
| C01 | `conc` | 2–4 caller tasks × 1–4 pack/unpack/size on 1–4 types with shared parts (cousins, variants with one attribute changed, types of equal name, unusable ones), warm-up history; preemption anywhere, codec faults, damaged inputs | each outcome (bytes, deep value, size, error text and identity) = same call alone after a restart; race detector; no deadlock; step bound |
| C02 | `conc` | 2–4 tasks × 1–5 Parse / Eval / EvalProgram / TypeOf sharing programs, resolvers (7 kinds, lazy ones too), packages and values | the same |
| C03 | `hist` | histories of 4–24 calls: unusable types, failing codecs, cut/damaged inputs, failing expressions, restarts; pooled memory; shared and old values | each outcome = that of the call alone after a restart |
| C04 | `cb` | one call; fault-free run counts codec callbacks, then every k gets each of the error kinds | same error value (identity), no callback afterwards, no bytes from Pack |
| C05 | `cb` | panics/lies at every callback, cut and damaged inputs, 8 kinds of unsettable destinations, values with missing parts; input and values nested tens of thousands of levels deep, expressions through types and pointers that lead back to themselves, impossible widths | nothing escapes as panic or fatal error; failure is an error |
| C06 | `store` | rounds of append/sync/crash/recover on a simulated disk: unsynced tail lost at any byte, short write, sync failure, disk full, codec faults on both sides | recovered records = the log's own list of complete records, then an error for the torn one; re-reading is stable |
| C07 | `store` | every proper prefix of an encoding, stale bytes lying behind it, fresh and reused destination | model: a field lacks bits ⇒ error, never success |
| C08 | `store` | flips, overwritten, zeroed, inserted, dropped, duplicated bytes, misdirected records; edits aimed at data, controls and padding | model's value or model's "spells none" ⇒ error; padding damage changes nothing |
| C09 | `store` | damaged counts, lengths, sizes; records grown ×2…×64 with the same structure | steps and allocated bytes per part below a factor fixed by the destination type; for the same record twice as long, at any bit offset, *growth* of both against growth of the parts (steps ≤ 1.6×, bytes ≤ 1.9×); plus hard limits |
| C10 | `net` | messages over a connection that fragments, stalls, disconnects, loses, re-sends; receiver task with one buffer and one destination; codec faults | delivered sequence = sent sequence; reported size = consumed bytes; earlier deliveries unharmed |
| C11 | `buf` | 1–3 tasks, guarded and shared input buffers, results and values scribbled over, appended to, resliced at scheduled moments | snapshots of everything that must not have changed; address overlap of strings/slices; guard bytes |
| C12 | `text` | texts from a grammar and mutations; every delivery (9 fault modes × every position × readers: RuneReader, RuneScanner, ByteReader-like, io.Reader, lenient ones that return a rune together with an error); texts of 8000–80000 characters of one kind | generator knows where text is complete; same program for every delivery; reads, steps and real memory ≤ linear |
| C13 | `det` | the same plan under other map orders, schedules, earlier calls, memory states | equal outcomes including error text; no addresses in texts |
| C14 | `conc` | codecs, orders, resolvers, functions that run 1–3 (nested up to depth 3) library calls inside, on known and new types | inner and outer outcome = alone; no deadlock; race detector |
| C15 | `cb` | every place that takes an expression × every way an expression fails; every callback of resolvers/functions raising errors and panics | error and no result; identity of a raised error |
| C16 | `store` | PNG files of generated chunks (all kinds the format knows, unknown ones, bad sizes), every cut, aimed and random damage | round trip byte-identical; independent PNG reader as model; work and memory bounded |
| C17 | `conc` | as C01 with unusable types, failing expressions and codecs in half of the calls, restarts between | everybody returns: no deadlock, bounded own steps, later calls work |
| C18 | `conc` | calls sharing one value without counts; values with counts out of date, odd shapes (nil pointers, short slices, unencodable values, nil lists, windows of longer lists, one thing in two places) | deep snapshot before/after; outcome = alone; race detector |
| C19 | `hist` | as C03 with EnableExprBeta at any point | before: error iff an expression is needed (model); after: = enabled from the start |
| C20 | `cb` | pack; failure at each callback in turn; counts out of date; retry, size, retry | snapshot (modulo counts/parents) and bytes of the retry = fault-free pack |

**Why this reaches what the tests cannot.** The suite packs some forty hand-written values once, in one
goroutine, with codecs that never fail, and never restarts, cuts or damages anything. Each of the above
quantifies over interleavings, fault positions, histories or storage states; e.g. the bug planted as
`c17-nested-rlock` needs a writer between two read locks of one call, `c11-empty-room` needs two results
alive at once and one of them appended to.

**Bounds.** Sampled, not exhaustive: ≤4 tasks, ≤24 calls a history, ≤21 records a log, ≤10 messages a
connection, lists mostly ≤4 elements (C09 up to 64×, some long ones of hundreds to tens of thousands in C06/C07/C16), nesting
≤4. Within a plan the fault points are enumerated (every k in C04/C05/C15/C20, every prefix in C07, every
cut in C16, every read in C12) — only the plans are sampled. Interleaving below statement granularity is left
to the race detector.

**Cost.** `quick` 36 s search per property on 8 workers (plus 1–3 s build), thorough 600 s and larger
layouts. Counts of a quick run on the unchanged tree (seed 1):

| id | plans | simulated executions | simulated steps | distinct non-trivial |
|----|------:|------:|------:|------:|
'''
rows=''
for i in range(1,21):
    d=json.load(open(f'/verif/evidence/C{i:02d}.json'))['coverage']
    rows+='| C%02d | %d | %d | %.1e | %d |\n'%(i,d['evaluations'],d['simulated_executions'],d['simulated_time_steps'],d['distinct_nontrivial'])
tail = r'''
The evidence files give faults met (not merely configured) per kind; a kind at zero fails the build of a
plan family during development, and the table above was used to tune the mixes.

## 3. Not applicable to this family

C21 (encodings follow the documented layout), C22 (size agrees with packed length), C23 (tags accepted or
rejected as documented), C24 (expressions evaluate as in Go), C25 (value or pointer) are pure functions of their
input: no schedule, clock, fault or interleaving takes part. Their content is still the reference model of
the other worlds — C06/C08/C10 fail when bytes or sizes go wrong — but the deciding step for them would be
input generation, so they are listed under `not_applicable`.

## 4. Genuine defects found on the original tree

40 repaired with `fix:` commits (listed with property and commit in `known_findings.json`); the replay of
each was checked to fail before and pass after. The check reports them again when a repair is undone.
One recorded, not repaired: **signed-bitfield** (C06, C08): signed bit fields narrower than their type are
sign-extended by their *lowest* bit (`int8:4` 0x1 → −15). The existing TestUnpack pins that behaviour, so
the repair cannot pass the unedited suite. The model computes both readings; a difference is attributed
to the finding only if it is exactly what that defect yields, anything else is a violation.

Behaviour that is odd but breaks none of the properties as stated (left alone): `&&`/`||` do not short-circuit; untyped float promotion; nil pointers are an error in Pack;
`uintptr` is sized 0; an encoding override narrower than the native type loses bits silently; complex and float with bits;
(pointers to) custom codec fields ignore their own if/skip/order tags; a pointer to a custom codec is
decoded in place when the destination is reused; png IHDR/IEND bodies have a fixed size whatever Len says; PNG `Parent` pointers after Unpack refer to
copies; fields under a false `if` keep the stale value of a reused destination; user byte orders with bit fields crop the wrong
end; `sizeof` inside switch cases; `[]string`/`[][]T` elements have no counts; `bits=` of 0 means full
width; functions returning an error cannot be used in expressions; Unpack into a func destination silently does nothing; `nil`
as an index acts as 0; custom codecs that start inside a byte are undefined; `A-1` without spaces does
not parse; named types are not converted in call arguments or by `in`; types that are nothing but themselves
(`type P *P`, `type L []L`) in Pack and Unpack; `Parent.X` fails when the parent has fields of kinds expressions
cannot represent (channels, interfaces, complex numbers).

## 5. False alarms met and corrected

Each was a fault of the machinery or of a too strong statement, and was corrected there: races on harness variables;
"dirty" counts put into inactive switch cases; poison on fields behind pointers to codecs; `broken`
applied twice; raw while tags unknown to the model; func destinations; user byte orders with bit fields
(C07, C08); misaligned custom codecs (`ErrUnaligned`); growth compared on damaged inputs; selftest
comparing allocated bytes; shallow copies with pointers to codecs or parents (`inPlace`); `bits.Reverse`
taken for a failing expression; C18 touching counts, parents and nested arrays (`hasCounts`); LocalA/LocalC
shared in C18; a nested struct with codecs and bit fields taken out as a type of its own (C06); the
harness printing a cyclic panic value (C03); a deliberately over-long value inside lists of hundreds of
elements, which made one call exceed the step budget (C06); growth of steps of records whose parts vary in
cost, against a limit that was too near what was observed (C09: 1.34 seen, limit 1.4, now 1.6); the comparison
of values before and after applied to operations that have none (C18, crowds of types: a crash of the harness);
a fixed budget of steps of the simulator that lists of 200000 elements could use up, and lists of elements so wide that
what may rightly be allocated ahead is more than the harness gives (C09; now the budget follows the operation, and such
inputs are left out).

**What was deliberately not judged.** Error *texts* are compared only between executions of the same code
(alone/together, map orders), never with fixed wordings; the order in which a call visits callbacks
is not prescribed; nothing depends on how many statements or allocations a call makes except C09's and C12's
growth limits, which have a factor of several over what is observed.

## 6. Mutation study

Besides the planted bugs, syntactic mutants of the library (conditions negated or moved by one, statements
dropped, constants changed, arguments swapped) were built into copies and every check run against those that pass the
stable tests. First batch (decoder, encoder, fields, structstack, packing): the survivors led to counts that
overflow, arrays with while, wider padding, missing lists, sign bits and values beyond 32 bits in the generator.
Second batch (expr: lexer, parser, evaluator, environments): survivors were looked at one by one; what was
not equivalent or a mere wording led to lenient readers and errors that come with a rune (C12), literals in other
spellings, and conditions on floats and text.

Later rounds planted bugs instead of mutating (section 7): each round's misses became machinery. Among them: crowds
of types (some fifty to thousands of distinct types met in one history: C01–C03, C14, C17, C19), expressions that nest or refer in
rings (`worlds/deep.go`: C05), impossible widths and values that contain themselves (C05), records of hundreds
of levels whose cost must grow with the levels, not faster (C09 `levels`), lists read bit by bit behind a bit
field and lists of up to 200000 elements (C09), lists and strings of more than 65535 elements (C06, C08), names, numbers and
literals of many thousand characters with real memory measured (C12 `long`, which found the fortieth defect), clocks
on which a step takes a microsecond, a millisecond or a second (C13), values whose lists are nil, or windows of longer ones
whose rest must stay as it is, comparison of everything a value consists of, encoded or not (`spec.Raw`: C18, C20),
records of up to some 200 fields, values that hold the same pointer twice, in lists and in fields of different byte
order, and names that a resolver hides from the ones below it (C02).

## 7. Planted bugs

`seeded/` holds one directory per bug (patch, demonstration, meta). All apply to HEAD, build, pass the
stable tests, and their demonstrations fail with and pass without them (`tools/demos.sh`).
`tools/trybugs.sh` applies each to /repo, runs the quick check of its property, and undoes it. Result of
the last full run:

| bug | check | needs |
|-----|-------|-------|
'''
try: res=json.load(open('/verif/tools/caught.json'))
except Exception: res={}
cat=''
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    id=f.split('/')[-2]; m=json.load(open(f))
    need=m['needs'].replace('\n',' ').replace('|','/')
    if len(need)>130: need=need[:127].rsplit(' ',1)[0]+' …'
    cat+='| %s | %s %s | %s |\n'%(id,m['property'],res.get(id,''),need)
open('/verif/DESIGN.md','w').write(head+rows+tail+cat+open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else head+rows+tail+cat)
