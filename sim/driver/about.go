package driver

import (
	"encoding/binary"

	"github.com/go-restruct/restruct"
)

type aboutT struct {
	level, rule, distinct, stub string
	assume                      []string
}

const (
	exploration = "exploration"
	enumeration = "fault_enumeration"

	stubTasks   = "caller goroutines (parked and released one at a time by the seeded scheduler), user codecs, byte orders, resolvers and functions (written for the simulator, with a fault controller behind each callback)"
	stubDisk    = "storage (an in-memory disk with an unsynced tail), the process restart (all package variables re-initialised), user codecs"
	distinctSch = "distinct hashes over the whole schedule (every task switch with its position) and all outcomes, among executions with at least one switch at shared state (a lock, package variable or callback)"
	distinctOut = "distinct hashes over the outcomes of all calls of the plan, among plans that did what the rule calls non-trivial"
)

var trust = []string{
	"the scheduler serialises tasks at statement and lock granularity; reorderings of plain memory accesses below that are covered only by the race detector",
	"instrumentation adds scheduling points and replaces sync, map ranging, make and package initialisation of the packages under test, and changes nothing else",
}

var about = map[string]aboutT{
	"C01": {exploration, "a plan: 1-3 generated types that share parts, 2-4 tasks of 1-4 calls (pack, unpack, size) with failing codecs and damaged inputs among them, a warm-up history, a schedule policy; non-trivial: tasks were switched at shared state", distinctSch, stubTasks, trust},
	"C02": {exploration, "a plan: 1-4 expressions, 1-2 environments, 2-4 tasks of 1-5 parses/evaluations/type queries sharing programs, resolvers and values; non-trivial: tasks were switched at shared state", distinctSch, stubTasks, trust},
	"C03": {exploration, "a plan: types that share parts, unusable ones and ones whose expressions fail among them, a history of 4-24 calls with failing codecs, damaged and cut inputs, restarts; every call's outcome is compared with that of the call alone after a restart; non-trivial: a failed call preceded a compared one", distinctOut, stubTasks, trust},
	"C04": {enumeration, "a plan: a type with custom codecs and one call; the fault-free run counts the callbacks, then an error is injected at each of them in turn; non-trivial: at least one injected error was met", distinctOut, stubTasks, trust},
	"C05": {exploration, "a plan: a type and a call, run with panics and lies injected at each callback, with cut and damaged inputs and unsettable destinations; non-trivial: a fault was met", distinctOut, stubTasks, trust},
	"C06": {exploration, "a plan: a layout, rounds of append, sync, crash, recover on a simulated disk with short, torn, lost writes and a full disk; non-trivial: a crash lost or tore something and a record was recovered", distinctOut, stubDisk, trust},
	"C07": {enumeration, "a plan: a layout and a value; every proper prefix of the encoding is unpacked, with the rest lying stale behind the input; non-trivial: at least one prefix is missing encoded bits", distinctOut, stubDisk, trust},
	"C08": {exploration, "a plan: a layout, a value, sets of edits to the stored bytes; non-trivial: the damage changed what the bytes spell", distinctOut, stubDisk, trust},
	"C09": {exploration, "a plan: a layout with counts or size expressions, edits aimed at them; non-trivial: the decoded value or the failure differs from the undamaged one", distinctOut, stubDisk, trust},
	"C10": {exploration, "a plan: a layout, messages, a sequence of deliveries, stalls, disconnects; non-trivial: at least one attempt failed before it succeeded", distinctOut, "the connection, the receiver loop, user codecs", trust},
	"C11": {exploration, "a plan: tasks that pack and unpack through shared, guarded buffers and overwrite them at scheduled moments; non-trivial: something was overwritten after a call", distinctOut, stubTasks, trust},
	"C12": {exploration, "a plan: an expression text, delivered by readers that fail or end at every rune; non-trivial: at least one fault was met while reading", distinctOut, "the rune reader", trust},
	"C13": {exploration, "a plan: calls run under several map orders, schedules, histories; non-trivial: a map was ranged over or a task switched", distinctOut, stubTasks, trust},
	"C14": {exploration, "a plan: types with codecs that call back, 2-4 tasks whose codecs run 1-3 calls inside; non-trivial: tasks were switched at shared state", distinctSch, stubTasks, trust},
	"C15": {exploration, "a plan: a type with a failing expression, or an expression whose resolver or function fails at each callback; non-trivial: the failure was met", distinctOut, stubTasks, trust},
	"C16": {exploration, "a plan: a PNG file of generated chunks on a simulated disk, cut at every length, damaged by edits; non-trivial: the damage reached bytes the format reads", distinctOut, stubDisk, trust},
	"C17": {exploration, "a plan as for C01, with unusable types, failing expressions and failing codecs in half of the calls; non-trivial: tasks were switched at shared state", distinctSch, stubTasks, trust},
	"C18": {exploration, "a plan as for C01 whose calls share values without counts, or size and pack values whose counts are out of date; non-trivial: tasks were switched at shared state", distinctSch, stubTasks, trust},
	"C19": {exploration, "a plan: a history of calls that enables expressions at some point; non-trivial: at least one call needed an expression before it", distinctOut, stubTasks, trust},
	"C20": {enumeration, "a plan: a type with custom codecs and a pack; a failure is injected at each callback in turn, then the pack is repeated; non-trivial: at least one injected failure was met", distinctOut, stubTasks, trust},
}

// probe tells whether a known finding is still there.
func probe(id string) bool {
	switch id {
	case "signed-bitfield":
		var v struct {
			A int8 `struct:"int8:4"`
			B int8 `struct:"int8:4"`
		}
		if err := restruct.Unpack([]byte{0x17}, binary.BigEndian, &v); err != nil {
			return false
		}
		return v.A != 1 || v.B != 7
	}
	return false
}
