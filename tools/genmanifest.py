#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand, from /verif."""
import json

TECH = "deterministic simulation with fault injection: "
A = "Sampled, not exhaustive: held on every execution tried. "
T = ("Trusts the scheduler, the sources' instrumentation (it adds statements, renames nothing), "
     "the Go runtime and race detector, and for oracles the simulator's independent model of the documented encoding. ")
INFO = {
 "C01": ("seeded scheduler over caller tasks at statement granularity, happens-before race detection, outcome compared with the call alone after a simulated restart", A+T),
 "C02": ("seeded scheduler over evaluating tasks that share programs, resolvers and values, race detection, outcome compared with the evaluation alone", A+T),
 "C03": ("seeded histories of calls with injected failures and restarts, each outcome compared with the call alone in a restarted process", A+T),
 "C04": ("error injected at the k-th callback of a user codec, for every k of each generated operation, history of callbacks checked", A+T+"Within one plan the fault points are enumerated; plans are sampled."),
 "C05": ("panics, wrong remainders, wrong sizes, damaged and short input, unsettable destinations injected; nothing may escape", A+T),
 "C06": ("simulated disk with unsynced tail, torn, short and lost writes, full disk, crash and restart; recovered records compared with the log's reference", A+T),
 "C07": ("every crash point of a stored record (every prefix), with stale bytes behind it, against a reference codec", A+T+"Within one plan all prefixes are enumerated."),
 "C08": ("seeded storage damage (bit flips, overwritten, duplicated, zeroed, lost sectors), against a reference codec", A+T),
 "C09": ("storage damage aimed at counts and sizes; steps, single allocations and total allocations metered by the simulator", A+T+"The linear bound's factor is calibrated per layout, with slack."),
 "C10": ("simulated connection with fragmentation, stalls, disconnects and resends; sequence received compared with sequence sent", A+T),
 "C11": ("guarded input buffers, scribbling over inputs, outputs and values at scheduled moments among concurrent tasks, snapshots compared", A+T),
 "C12": ("rune readers that fragment, fail or end at every point; program compared by outcomes; step budget", A+T),
 "C13": ("same calls under other map orders, schedules, heaps and histories; identical outcome text required", A+T),
 "C14": ("user codecs that call back into the library under the seeded scheduler; inner and outer outcomes compared with those alone; deadlock and step budget", A+T),
 "C15": ("expressions, resolvers and called functions failing at every callback; the failure must come back as that error", A+T),
 "C16": ("PNG files on simulated storage, torn, cut, damaged; chunks compared with an independent reader of the format", A+T),
 "C17": ("seeded scheduler with failures injected while other calls are in progress; deadlock detection, step bound, later calls complete", A+T),
 "C18": ("shared values packed and sized by scheduled tasks, race detection, snapshots of the value before and after", A+T),
 "C19": ("seeded histories that enable expressions at any point; outcomes compared with never enabled and enabled from the start", A+T),
 "C20": ("codec and byte order failures injected at every callback of a pack; value compared, retry compared with fault-free pack", A+T),
}
LEVEL = {"C04": "fault_enumeration", "C07": "fault_enumeration", "C20": "fault_enumeration"}
DONE = open("tools/done.txt").read().split()

checks = []
for c, (tech, note) in INFO.items():
    if c in DONE:
        checks.append({"property": c, "quick_cmd": "./check " + c, "thorough_cmd": "./check %s thorough" % c,
                       "technique": TECH + tech, "level": LEVEL.get(c, "exploration"), "level_note": note})
na = [("C21", "pure function of value and tags: no schedule, fault, clock or interleaving takes part; generating inputs would not be simulation"),
      ("C22", "pure function of the value: no schedule, fault, clock or interleaving takes part"),
      ("C23", "pure function of the tag text: no schedule, fault, clock or interleaving takes part"),
      ("C24", "pure function of expression and environment: no schedule, fault, clock or interleaving takes part"),
      ("C25", "pure function of the argument: no schedule, fault, clock or interleaving takes part")]
na += [(c, "check not built yet") for c in INFO if c not in DONE]
json.dump({"version": 1, "setup_cmd": "./mk.sh setup", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in na],
           "notes": "No hooks in /repo: the checks compile an instrumented copy of /repo's sources through go build -overlay (sim/cmd/instr), so the shipped code is unchanged. ./check PROP [thorough]; ./replay FILE; VERIF_SEED seeds every random choice."},
          open("MANIFEST.json", "w"), indent=1)

FIXED = [
 ("8d28339", "C05", "panics met while packing, unpacking or sizing escaped to the caller"),
 ("003c6bd", "C05 C15", "panics other than errors met while parsing or evaluating escaped to the caller"),
 ("3b9b7e6", "C12", "a string literal cut short was scanned for ever"),
 ("90b0ec6", "C12 C05", "text ending inside brackets or before an operand gave a program"),
 ("d9243b2", "C06 C08", "a skip ending on a byte boundary misplaced the following bits"),
 ("fb944be", "C06", "strings and byte slices at odd bit positions were not unpacked as packed"),
 ("89ce4b8", "C07", "input ending inside skipped bits was accepted"),
 ("fc72e86", "C10", "unpacking a switch cleared the wrong field of a reused destination"),
 ("049a52c", "C10", "a while list was appended to what the destination held"),
 ("b3da326", "C11", "an unpacked byte slice shared memory with the input"),
 ("84fd46c", "C06", "skipped bytes were counted as part of a string or byte slice"),
 ("1001dbc", "C09", "a damaged count allocated memory out of proportion to the input"),
 ("f7b9441", "C02 C03", "a type under construction was visible to other callers, or stayed after a failure"),
 ("b450076", "C13", "which missing sizeof target was reported depended on map order"),
 ("4d9b592", "C06", "counts were taken from the wrong field after an ignored field"),
 ("3c27c0f", "C06", "a count too large for its field was packed truncated"),
 ("6c0ce73", "C06 C10", "sizes of conditional, skipped and dynamic bit fields differed from what was packed"),
 ("af748f3", "C05 C06", "lists were sized by one element; recursive pointers overflowed the stack"),
 ("ac8acc3", "C05", "an unsettable destination panicked or was ignored"),
 ("19e30e1", "C06", "structs passed by value were packed without unexported contents"),
 ("15bf1bb", "C13", "error texts contained memory addresses"),
 ("d704dcf", "C06", "numeric cases of a switch never matched controls of another integer type"),
 ("983aae4", "C06", "plain int and uint were sized as 32 bits but packed as 64"),
 ("d50977a", "C06", "little endian bit fields lost bits"),
 ("022f930", "C06", "pointers to custom codecs were not allocated before unpacking"),
 ("f39cb83", "C08", "a negative dynamic bit width read from damaged bytes was taken for no bits at all"),
 ("85d0c04", "C06 C08", "comparisons, operators and cases on fields of named basic types silently did not match, or failed"),
 ("8c387c0", "C05 C13", "a panic with a value that contains itself overflowed the stack while its text was made; text of panics contained addresses"),
 ("c59f71b", "C05 C15", "comparing a pointer of a recursive type with nil overflowed the stack"),
]
try:
    extra = json.load(open("tools/fixed_extra.json"))
except FileNotFoundError:
    extra = []
F = [{"kind": "finding", "id": "signed-bitfield", "properties": ["C06", "C08"],
      "what": "signed bit fields narrower than their type are sign extended according to their lowest bit instead of their highest (decoder.go readInt; pinned by the existing TestUnpack): int8:4 0x1 decodes as -15, 0xE as 14",
      "where": "decoder.go, sign extension of bit fields; failing input: struct{A int8 `struct:\"int8:4\"`; B int8 `struct:\"int8:4\"`} from byte 0x17"}]
for h, ps, what in FIXED + [tuple(x) for x in extra]:
    F.append({"kind": "fixed", "properties": ps.split(), "commit": h, "what": what,
              "text": "; ".join("fixed: property=%s %s %s" % (p, h, what) for p in ps.split())})
