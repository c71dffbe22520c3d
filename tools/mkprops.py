#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the long texts stay reviewable).
import json,os
F=lambda *a:list(a)
def m(name,where): return {"name":name,"where":where}
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},
      "why_tests_cant":why,"anchors":{"files":list(files),"state":list(state),"mechanism":list(mech),"observe_at":list(observe),"hook_needed":hook}})
def st(n,mn,w): return {"name":n,"meaning":mn,"where":w}

add("C01","Concurrent calls each behave as if they ran alone",
"When any number of goroutines call Marshal, MarshalOpts, Append or AppendOpts at the same time, on shared or private values of any types, every call returns exactly the bytes or the error that the sequential encoding of its own value with its own options gives. This includes several callers encoding a type (also a recursive one) for the first time at the same moment, and callers that re-enter the package from their own marshaling methods.",
F("schedules","inputs","histories"),"all interleavings of any set of calls at any point inside a call; all pool hit/miss/steal outcomes; all mixes of first and repeated use of types",
"The tests never run two calls at the same time; even under -race only one goroutine encodes, so no first-use race, shared cache update or pooled buffer hand-over between callers is ever executed.",
F("json.go","instruction.go","buffer.go","map.go","encode.go","struct.go","types.go"),
[m("copy-on-write instruction cache published atomically","instruction.go: cachedInstr/storeInstr/loadCache"),m("indirect placeholder that waits for the real struct instruction","instruction.go: newStructInstr"),m("exclusive ownership of pooled buffers, map elements and iterators for the duration of a call","buffer.go, map.go, map_1.18.go, encode.go"),m("result copied before the buffer returns to its pool","json.go: marshalJSON")],
[st("instrCachePtr","type -> instruction cache","instruction.go"),st("structInstrCache","struct type -> instruction cache","instruction.go"),st("fieldsCache / emptyFnCache","per type caches","struct.go, types.go"),st("bufferPool / mapElemsPool / hiterPool","recycled scratch memory","buffer.go, map.go")],
F("returned bytes and errors of every call, against an executable reference encoder"))
add("C02","The result of a call does not depend on what was encoded before",
"For every history of earlier calls in the process - which types were seen first, whether by value, by pointer, in a field, element, map value or interface, with which options, and whether those calls succeeded, failed or panicked - a call returns exactly what the same call returns as the very first one after process start.",
F("histories","inputs"),"all finite histories of calls (with their options, failures, panics and pool evictions) before the call, compared with the same call in a freshly started process",
"Tests share one process but each checks only its own value in one fixed order; the order in which types and addressability variants enter the caches is never varied and no result is compared with a cold process.",
F("instruction.go","struct.go","types.go","encode.go","map.go","buffer.go","json.go"),
[m("cache keys that separate addressable from non-addressable use of a struct type","instruction.go: newStructInstr"),m("instructions that take the options as an argument and hold none","instruction.go, encode.go"),m("cached field lists are cloned before being specialised","instruction.go: newStructFieldsInstr"),m("recycled objects are reset before reuse","buffer.go: cachedBuffer, map.go: releaseMapElems, map_1.18.go: newHiter")],
[st("package caches and pools","everything that survives a call","instruction.go, struct.go, types.go, buffer.go, map.go")],
F("returned bytes and errors, differentially against a simulated restart"))
add("C03","Results and inputs stay the property of the caller",
"The bytes a call returned are never changed by any later or concurrent call, and a caller that overwrites or appends to them never changes the outcome of another call. Encoding never modifies the value being encoded, nor a byte slice handed back by a marshaling method, and keeps no reference through which later changes to these could reach another call's result.",
F("schedules","histories"),"all interleavings and histories in which results are kept, overwritten or extended while other calls run, with every pooling outcome",
"A test inspects a result immediately after the call that made it, before any other call can reuse the memory; none keeps or scribbles over results across calls or checks that inputs are left alone.",
F("json.go","buffer.go","encode.go","map.go","unsafe.go"),
[m("copy out of the pooled buffer before it is released","json.go: marshalJSON"),m("map elements dropped before the buffer they point into is released","encode.go: encodeSortedMap/encodeSortedSyncMap"),m("strings and arrays are viewed read-only through constructed slice headers","unsafe.go: sp2b, encode.go: encodeByteArrayAsString")],
[st("bufferPool","shared scratch buffers","buffer.go")],
F("previously returned slices, input values and callback-owned slices after every later event"))
add("C04","A failing marshaling method fails its own call, cleanly",
"If a marshaling method returns an error at any point of a call, Marshal returns no bytes and an error that names the method and the type and unwraps to the method's own error, no further marshaling method is invoked by that call, and never is partial output returned as a success. Every other call, concurrent or later, is unaffected by the failure.",
F("fault_sequences","schedules","histories"),"every position in a value at which a method can fail, any number of failing calls, interleaved with any other calls",
"Tests fail one top-level method on an otherwise idle package and look only at the error's type; failures deep in maps, sync.Maps and nested structures, what they leave behind in pooled state, and their effect on other calls are not exercised.",
F("encode.go","json.go","instruction.go","map.go"),
[m("errors of marshaling methods are wrapped with method and type","encode.go: encodeAppendMarshaler(Ctx)/encodeJSONMarshaler/encodeTextMarshaler"),m("every composite encoder stops at the first error and releases its pooled objects","encode.go: encodeStruct/encodeArray/encodeSortedMap/encodeUnsortedMap/encodeSyncMap"),m("the buffer is recycled, not returned, on error","json.go: marshalJSON")],
[st("mapElemsPool","entries of an abandoned map must not survive","map.go")],
F("returned error, bytes and sequence of method invocations; outcomes of all other calls"))
add("C05","A panic or goroutine exit in a method stays in its own call",
"If a marshaling method panics or ends its goroutine in the middle of a call, exactly that panic value (or exit) reaches that caller and nobody else; calls in flight in other goroutines and all later calls, of the same types included, still return their specified results and none of them blocks or panics.",
F("crash_points","schedules","histories"),"a panic or goroutine exit at every callback position of every call, in any interleaving with other calls",
"No test lets a marshaling method panic or exit its goroutine, so the state a call abandons half-way (pooled buffers, map iterators, locks, waiters) is never looked at.",
F("encode.go","json.go","instruction.go","map.go","buffer.go"),
[m("no lock is held and no shared object is half-updated while user code runs","json.go, encode.go, instruction.go"),m("pooled objects abandoned by an unwound call are simply not returned to the pool","encode.go, json.go")],
[st("pooled buffers, iterators and map elements","abandoned or recycled when a call unwinds","buffer.go, map.go")],
F("recovered panic value per caller; outcomes and completion of all other calls"))
add("C06","Every call makes progress; a stalled method delays nobody else",
"Every call completes within a bounded number of its own steps once its own marshaling methods have returned, whatever the other callers do: first-use preparation of (mutually) recursive types by several callers always completes and nobody waits forever. A call that is stalled indefinitely inside a user's marshaling method never prevents any call of another goroutine from completing, and a method may call back into the package without deadlock.",
F("schedules","fault_sequences"),"all interleavings, with any subset of callers stalled or hung inside their marshaling methods at any point",
"Deadlock and starvation depend on the order in which several callers publish and await recursive types or hold shared state across user code; the tests use one goroutine and methods that return at once.",
F("instruction.go","json.go","encode.go","map.go","buffer.go"),
[m("waiting happens only when a placeholder is executed, never while a type is being prepared","instruction.go: newStructInstr"),m("no lock or scarce resource is held across user code","json.go, encode.go")],
[st("structInstrCache","holds placeholders other callers wait on","instruction.go")],
F("completion of every call in simulated steps; the set of blocked callers at quiescence"))
add("C07","Map output is complete, sorted and independent of iteration order",
"Whatever order the runtime iterates a map in, and whatever the package recycled from earlier or concurrent calls, the sorted encoding of the same map is the same sequence of bytes: every entry exactly once, ordered by key text as encoding/json orders it. With sorting disabled the output is some permutation of exactly those entries; both hold for nested maps and with marshaling methods that re-enter the package between entries.",
F("schedules","histories","inputs"),"all iteration orders, map sizes and key sets, pool histories and interleavings with other map encodings",
"A test sees the one or few random iteration orders of that run and small maps with plain keys; it cannot choose the order, nor line it up with a dirty pool or another call.",
F("encode.go","map.go","map_1.18.go","instruction.go"),
[m("entries are collected in a pooled buffer and sorted before being appended","encode.go: encodeSortedMap"),m("iterators are zeroed before reuse","map_1.18.go: newHiter"),m("collected entries are cleared before they are recycled","map.go: releaseMapElems")],
[st("hiterPool / mapElemsPool / bufferPool","recycled iteration state","map.go, buffer.go")],
F("output bytes under permuted iteration orders"),None)
add("C08","Encoding a sync.Map while it is being modified gives a coherent object",
"If a sync.Map is encoded while other goroutines store, replace and delete entries, the call returns one well-formed JSON object with no duplicate key in which every entry is a key with a value it held at some moment during the call; entries that stay unchanged throughout the call are all present and keys that were never present are not. Without concurrent modification the object contains exactly the entries of the map, including those whose value is nil, sorted by key unless sorting is disabled.",
F("schedules","histories"),"all interleavings of an encoding with any sequence of modifications by other goroutines and by the map's own values' methods",
"The tests encode sync.Maps that nobody else touches; the whole point of the type, concurrent modification during the traversal, is never exercised.",
F("encode.go"),
[m("entries are collected through one traversal into a private buffer","encode.go: encodeSortedSyncMap/encodeUnsortedSyncMap"),m("key classification and quoting","encode.go: appendSyncMapKey")],
[st("the user's sync.Map","shared with concurrent writers","caller")],
F("decoded output against the recorded history of modifications"))
add("C09","Options and context belong to exactly one call",
"The options and the context given to a call govern everything encoded in that call, at every depth, and nothing in any other call: concurrent or later calls with other options or the defaults on the same types are not influenced, and the same option values may be reused by any number of concurrent calls. Every context-aware marshaling method is given exactly its own call's context (a usable non-nil one by default), so cancelling one call's context at any moment is seen by that call's methods only.",
F("schedules","configurations","histories","fault_sequences"),"all combinations of options per call, all interleavings of calls with different options on the same types, cancellation or deadline expiry at any moment",
"Each test uses one option set on a fresh type with nobody else running; leakage of options or contexts through cached instructions needs two calls with different options on the same type in a certain order or overlap.",
F("options.go","json.go","encode.go","instruction.go","struct.go"),
[m("options are passed by value down the whole encoding","json.go, encode.go"),m("instructions capture only type information","instruction.go"),m("context handed to context-aware methods","encode.go: encodeAppendMarshalerCtx")],
[st("cached instructions","must be option independent","instruction.go")],
F("output bytes, contexts observed by methods"))
add("C10","Concurrent use is free of data races",
"Any number of goroutines may call the encoding functions concurrently on values nobody modifies, with any types, options and marshaling methods, without any two conflicting unsynchronised memory accesses by the package, in the sense of the Go memory model.",
F("schedules","inputs"),"all interleavings and type mixes, in particular concurrent first use, pool hand-over and nested encoding",
"CI runs the tests with -race but in a single goroutine, where no race can exist to be detected.",
F("instruction.go","struct.go","types.go","buffer.go","map.go","json.go","encode.go"),
[m("atomic publication of immutable cache snapshots","instruction.go"),m("WaitGroup ordering between building and running a recursive instruction","instruction.go: newStructInstr"),m("sync.Map and sync.Pool for everything else shared","struct.go, types.go, buffer.go, map.go")],
[st("package level caches and pools","all shared mutable state","instruction.go, struct.go, types.go, buffer.go, map.go")],
F("happens-before analysis of every memory access in simulated schedules"))
add("C11","Memory safety: collections and stack moves never change a result",
"A garbage collection, a growth, move or shrink of the calling goroutine's stack, or an eviction of recycled memory at any moment of a call never changes its outcome: the encoder reads only memory that belongs to the value, for values of every shape (pointer-shaped, embedded, zero-sized, nil, shared), and methods are always invoked on the actual receiver.",
F("schedules","crash_points","inputs"),"a collection, stack move or pool eviction at any instrumented point of any call, on values of every shape that nothing but the call keeps alive",
"The collector runs at moments the tests do not choose and almost never inside an encoding of a small value; a wrong offset, stale pointer or unprotected referent shows only if memory is reused at the wrong moment.",
F("unsafe.go","encode.go","instruction.go","struct.go","json.go","map.go","types.go"),
[m("the value is kept reachable until the instruction returns","json.go: marshalJSON"),m("inline (pointer-shaped) values are distinguished from boxed ones","types.go: isInlined, unsafe.go: packEface, instruction.go: wrapInlineInstr"),m("offset sequences through embedded structs","struct.go: scanFields, encode.go: encodeStruct")],
[st("unsafe pointers held across user code","must stay valid over GC and stack moves","encode.go, instruction.go, map.go")],
F("output bytes, receivers seen by methods, absence of faults, with freed memory overwritten"))
add("C12","Append extends the caller's buffer and touches nothing else",
"For every destination slice - nil, empty, full, with spare capacity of any size, or a window into a larger array - a successful Append or AppendOpts returns the destination's original bytes followed by exactly what Marshal or MarshalOpts returns for the same value and options. Whether the call succeeds, fails or panics at any point, the destination's bytes before its length and all memory beyond its capacity are left as they were.",
F("fault_sequences","inputs","schedules","crash_points"),"all destination lengths and capacities relative to the output, with failures, panics and other calls at any point",
"Tests append to one or two fixed destinations; the growth paths depend on the exact spare capacity at each inner write and, under failure, on what had been written when the call stopped.",
F("json.go","encode.go","instruction.go"),
[m("every encoder appends to and returns the extended slice","encode.go, integer.go, time.go"),m("manual growth for base64 output","encode.go: encodeByteSlice"),m("insertion and truncation relative to recorded offsets","encode.go: encodeStruct (omitnil), encodeSortedMap")],
[st("dst","caller's memory","caller")],
F("returned slice, prefix and surrounding guard bytes, against Marshal of the same value"))
add("C13","Corrupt output of a marshaling method never becomes a corrupt result",
"With default options, whatever bytes a MarshalJSON or MarshalText method or a raw JSON message supplies - truncated, bit-flipped, empty, padded, with quotes, control characters or invalid UTF-8 - a call that succeeds returns one valid JSON document that embeds the supplied JSON compacted, or the supplied text as an escaped JSON string; supplied bytes that are not valid JSON are reported as an error. The same faults in one call never disturb another call.",
F("fault_sequences","inputs","schedules"),"all corruptions of the bytes supplied by user code at any position of the value, in any interleaving",
"Tests use methods that return constant well-formed JSON or plain ASCII text, so what a misbehaving or hostile method can inject into the surrounding document is not exercised.",
F("encode.go","struct.go"),
[m("validation and compaction of supplied JSON","encode.go: encodeJSONMarshaler/encodeRawMessage/appendCompactJSON"),m("escaping of supplied text","encode.go: encodeTextMarshaler"),m("removal of null members for omitnil fields","encode.go: encodeStruct")],
[],
F("validity and content of the output or the error"))
add("C14","Each marshaling method runs exactly once, in document order",
"A successful call invokes, for every value in the encoded tree that supplies its own encoding, exactly one method - AppendJSONContext before AppendJSON before MarshalJSON before MarshalText, pointer-receiver methods only where the value is addressable - exactly once per occurrence, with the actual value as receiver, in document order except among the entries of a map. A call that fails or panics has invoked a prefix of that sequence ending with the method that failed, and nothing in the tree that is omitted from the output is invoked.",
F("schedules","fault_sequences","histories"),"all trees of values with methods, with failures at any position, under all interleavings and cache histories",
"Tests compare output bytes only; a method invoked twice, on a stale receiver, after a failure, or for an omitted field has side effects that output comparison does not see.",
F("instruction.go","encode.go","json.go"),
[m("selection of the method by type and addressability","instruction.go: newMarshalerTypeInstr"),m("single pass over the value","encode.go")],
[st("cached instructions","method choice is made once per type","instruction.go")],
F("recorded sequence of method invocations and receivers"))
# pure functions of the input: listed, not claimed
add("N01","Default output is byte-for-byte that of encoding/json",
"For every acyclic value made of types supported by encoding/json, encoding with default options succeeds exactly when json.Marshal does and returns the same bytes, apart from the differences the documentation lists.",
F("inputs","programs"),"all Go types and values","Tests compare a few hundred hand-written values; types and values are unbounded.",F("encode.go","instruction.go","struct.go","types.go"),[m("type directed instructions","instruction.go")],(),F("output bytes"))
add("N02","Strings are escaped correctly for every byte sequence and escaping option",
"For every byte sequence the encoded string is a valid JSON string that decodes to the input with invalid UTF-8 replaced, with HTML-sensitive characters escaped unless disabled, and each string option changes exactly what it documents.",
F("inputs","configurations"),"all byte strings and string options","Tests use short tables of strings.",F("encode.go"),[m("escaping loop","encode.go: appendEscapedBytes")],(),F("output bytes"))
add("N03","Numbers are formatted exactly and number literals are validated",
"Every integer and finite floating point value encodes to the JSON number encoding/json produces, infinities and NaN are rejected with a typed error, and a number literal is accepted exactly if it matches the JSON number grammar unless validation is disabled.",
F("inputs"),"all numeric values and literals","Tests sample tables and random values.",F("encode.go","integer.go","number.go"),[m("float formatting","encode.go: appendFloat"),m("literal grammar","number.go")],(),F("output bytes"))
add("N04","Times and durations are formatted exactly in every layout and format",
"Every time with a year in [0,9999] and every duration is encoded exactly as the time package formats it in the configured layout or format, years outside are rejected.",
F("inputs","configurations"),"all times, zones and durations","Tests use random samples and a few tables.",F("time.go","encode.go","options.go"),[m("hand-written RFC 3339 and duration formatting","time.go")],(),F("output bytes"))
add("N05","Struct fields are selected, named and omitted by the documented rules",
"The set, order and names of the members of an encoded struct follow Go's embedding rules amended by JSON tags, and omitempty, omitnil, string and name options act exactly as documented for every field type.",
F("programs","inputs"),"all struct types and tags","Tests use a few dozen struct types.",F("struct.go","tags.go","types.go"),[m("breadth-first field scan and dominance","struct.go")],(),F("output bytes"))
add("N06","Each formatting option changes exactly what it documents",
"Every option and combination of options changes only the representation it documents and leaves the rest of the output as without it; invalid options are rejected with a typed error and no output.",
F("configurations","inputs"),"all option sets on all values","Tests try each option on one value.",F("options.go","encode.go"),[m("flags tested where the representation is produced","encode.go, options.go")],(),F("output bytes"))
add("N07","Unsupported and cyclic inputs are rejected, never crash the process",
"Types that have no JSON encoding and cyclic values are reported as typed errors; no input whatsoever crashes or hangs the process.",
F("inputs","programs"),"all Go values","Tests try a few unsupported types and no cyclic value.",F("instruction.go","encode.go"),[m("unsupported type instruction","instruction.go: newUnsupportedTypeInstr")],(),F("error or crash"))
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
