"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
S = "src/v8serialize/"
J = S + "jstypes/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

ENC, DEC, REF = S + "encode.py", S + "decode.py", S + "_references.py"

p("P01", "Serialize then deserialize returns an equal value",
  "Deserializing what was serialized from any supported value yields the same JavaScript value: the same kind, contents, property and item order, holes, numeric value (including -0, NaN and integers of any size), text, bytes, instants and flags, under the documented Python-to-JavaScript mapping. It holds for every nesting and combination of supported types, whatever other values occur in the same data.",
  ["inputs"], "every acyclic or shared graph of supported Python values (builtins and JavaScript equivalents)",
  "tests round-trip single hypothesis-generated values per type with ordinary == (1 == True == 1.0, 0.0 == -0.0, NaN skipped), so kind, sign and cross-value interference are not observed",
  [ENC, DEC, J + "jsobject.py", J + "jsarray.py", J + "jsmap.py", J + "jsset.py", J + "jsbuffers.py"],
  [("type dispatch to tags", ENC + " TagWriter"), ("tag dispatch to values", DEC + " TagReader"), ("int range selection", ENC + " serialize_int"), ("deduplication of equal values", ENC + " DefaultEncodeContext.deduplicate")],
  observe=["v8serialize.dumps", "v8serialize.loads"])
p("P02", "Object identity, sharing and cycles survive a round trip",
  "Two positions in a serialized graph hold the same object after deserializing exactly when they held the same mutable object before, for every kind of object in every position (elements, keys, values, members, error causes, views over buffers), including cycles. A back-reference always resolves to the object it was written for, no matter which other kinds of object come before it.",
  ["inputs"], "every object graph with sharing and cycles over all supported object kinds and positions",
  "tests check self-references of one container at a time; the numbering of references depends on every object kind written earlier in the stream, a combinatorial space",
  [ENC, DEC, REF, S + "extensions.py"],
  [("reference log", REF + " SerializedObjectLog"), ("back-reference step", ENC + " serialize_object_references"), ("registration when reading", DEC + " record_reference calls")],
  state=[("reference numbering", "n-th object written has id n on both sides", REF)],
  observe=["v8serialize.dumps", "v8serialize.loads"])
p("P03", "V8 reads what we write as the value we meant",
  "A real V8 accepts every byte sequence produced with the options for its version and deserializes it to the JavaScript value the documentation says the Python value represents, including identity structure, key order, array length and holes, and number kind.",
  ["inputs", "configurations"], "every supported value graph and every feature setting not newer than the V8 at hand",
  "the repository's tests against JavaScript runtimes need network services and are skipped; the remaining tests compare the writer only to this project's own reader, so symmetric mistakes are invisible",
  [ENC, S + "constants.py"], [("tag writers", ENC + " WritableTagStream"), ("python to JavaScript mapping", ENC + " TagWriter")],
  observe=["v8serialize.dumps", "node v8.deserialize"])
p("P04", "We read what V8 writes as the value it meant",
  "Everything a real V8 (as embedded in Node.js) serializes from plain data, maps, sets, dates, regular expressions, errors, boxed primitives, buffers, typed arrays and shared or cyclic graphs of them can be deserialized, and the result equals the original JavaScript value under the documented mapping, including identity structure.",
  ["inputs"], "every JavaScript value graph the serializer of V8 accepts",
  "tests hold a handful of recorded byte strings; combinations (for example a typed array before a back-reference) never occur",
  [DEC, S + "extensions.py"], [("tag readers", DEC + " ReadableTagStream"), ("Node.js host objects", S + "extensions.py")],
  observe=["node v8.serialize", "v8serialize.loads"])
p("P05", "Output is always a well-formed V8 serialization stream",
  "Every successful serialization is a stream that an independent parser of the format accepts completely: a version-15 header, known tags only, counts and lengths that match the content, two-byte strings aligned, canonical and in-range integers, object keys limited to strings and numbers, and back-references only to objects already begun. No byte is left over and the low-level writer preserves this in any legal sequence of calls.",
  ["inputs", "programs"], "every value graph and every legal sequence of low-level write calls",
  "tests compare a few literal byte strings; alignment, counts and reference validity depend on stream position and history",
  [ENC, S + "constants.py"], [("tag stream writer", ENC + " WritableTagStream"), ("two-byte padding", ENC + " write_string_twobyte"), ("key tag constraint", ENC + " constrain_tags")],
  observe=["bytes returned by v8serialize.dumps / Encoder.encode", "WritableTagStream.data"])
p("P06", "Malformed input only ever fails with the documented error",
  "For any byte string at all, deserializing either returns a value or raises the library's documented decoding error (a nesting too deep for the interpreter's stack may raise its recursion error); it never raises another exception type, never hangs, and never allocates memory out of proportion to the input. The input bytes are not modified, and the reported position lies within the data.",
  ["inputs", "fault_sequences"], "every byte string, in particular every mutation, splice and corruption of valid streams",
  "tests try a few hand-written invalid inputs per tag; the space of corruptions is unbounded",
  [DEC, S + "_errors.py", J + "jsregexp.py", J + "jsbuffers.py", S + "extensions.py"],
  [("bounds checks", DEC + " ensure_capacity/read_varint"), ("error raising", DEC + " throw")],
  observe=["v8serialize.loads", "Decoder.decodes"])
p("P07", "Truncated or inconsistent data is rejected, never misread",
  "Cutting a valid stream anywhere before its end (except directly after a top-level buffer whose view follows, where the buffer is itself a complete value), changing an item count or array length, pointing a back-reference at an object that has not been read, giving an error an unknown, repeated or misplaced field or a message or stack that is not text, or using a version outside 13 to 15 always raises the decoding error instead of returning a value. Bytes after the end of the value do not change the result.",
  ["inputs", "fault_sequences"], "every valid stream, every cut point, every count and every reference in it",
  "tests truncate a few primitives; the guarantee is for each cut point of every stream",
  [DEC, REF], [("count verification", DEC + " read_jsmap/read_jsset/_read_js_object_properties/read_js_array_*"), ("capacity checks", DEC + " ensure_capacity"), ("reference lookup", REF + " get_object")],
  observe=["v8serialize.loads"])
p("P08", "Every valid encoding of a value deserializes to that value",
  "The format lets a value be written in many ways: versions 13, 14 and 15, one-byte, two-byte or UTF-8 text, padding before tags, non-minimal integers, numbers as int32, uint32 or double, dense or sparse arrays, numeric or text keys, boxed primitives, and either position for an error's stack. Deserializing any of them yields the value that an independent reader of the format computes.",
  ["inputs"], "every stream generated by the format's grammar",
  "tests only read what this project writes plus a few recorded samples; the alternative encodings other V8 versions produce are hardly touched",
  [DEC, S + "constants.py"], [("tag readers", DEC + " ReadableTagStream, TagReader")],
  observe=["v8serialize.loads"])
p("P09", "Input container type never matters and is never aliased",
  "Deserializing gives equal results from every C-contiguous bytes-like container and from a file object holding the same bytes; the container is neither modified nor kept, so changing it afterwards does not change values already returned, and returned mutable buffers are independent of it and of each other.",
  ["inputs", "histories"], "every stream, container type and later mutation of the container or of the results",
  "tests pass bytes almost everywhere",
  [DEC, S + "_pycompat/typing.py", J + "jsbuffers.py", S + "extensions.py"], [("buffer normalisation", S + "_pycompat/typing.py get_buffer"), ("copying of buffer data", J + "jsbuffers.py JSArrayBuffer.__init__")],
  observe=["v8serialize.loads", "Decoder.decode", "Decoder.decodes"])
p("P10", "Newer format features are only written when enabled",
  "Without a feature enabled, output never contains the construct that feature introduced: the data falls back to the older representation or serialization fails with the documented error naming the feature; with it enabled the construct is written. The features enabled for a target V8 version are exactly those introduced at or before it, combined with the ones asked for explicitly, and versions too old for the format are refused.",
  ["inputs", "configurations"], "every feature combination and V8 version, every value using resizable buffers, half-precision arrays or self-referencing errors",
  "tests enable a feature on one sample each; interaction with nesting, sharing and version strings is not covered",
  [ENC, S + "constants.py", S + "_versions.py", REF], [("feature flags", S + "constants.py SerializationFeature"), ("gating", ENC + " write_js_array_buffer, write_js_array_buffer_view, write_js_error")],
  observe=["v8serialize.dumps", "SerializationFeature.supported_by", "Encoder.first_v8_version"])
p("P11", "Unserializable values fail with the documented errors and leave no trace",
  "Serializing a value that has no JavaScript representation raises the library's documented error, identifying the value for an unsupported type, never returning partial or wrong bytes; this holds wherever in the graph the value sits, including property keys. After a failure the same encoder and the same objects serialize later values exactly as if the failure had not happened.",
  ["inputs", "fault_sequences", "histories"], "every unsupported value at every position, followed by further serializations",
  "tests serialize one unsupported object at the top level",
  [ENC, REF, S + "_errors.py"], [("unhandled value report", ENC + " _report_unmapped_value"), ("key constraint", ENC + " constrain_tags"), ("range checks", ENC + " write_*")],
  observe=["v8serialize.dumps", "Encoder.encode"])
p("P12", "Calls are pure, deterministic and independent across threads",
  "Serializing never changes the value, serializing the same value twice gives identical bytes, and re-serializing a deserialized value gives bytes that deserialize to the same value. A call's result does not depend on earlier calls, on sharing an encoder, decoder or step object, or on other threads running calls at the same time.",
  ["inputs", "histories", "schedules"], "every sequence and interleaving of calls on shared encoders, decoders and values",
  "tests run single calls in one thread",
  [ENC, DEC, S + "_recursive_eq.py", J + "_repr.py"], [("per-call context", ENC + " Encoder.encode; " + DEC + " Decoder.decodes")],
  observe=["v8serialize.dumps", "v8serialize.loads"])
p("P13", "Encode steps see every value, in order, and fully control it",
  "With custom encode steps, every value of the graph in every position is offered once per occurrence to the first step, delegating passes it to the following step and writes what that step produces, and a substituted value is written in place of the original while identity handling stays consistent. The last step failing raises the documented unhandled-value error, and steps given as functions or as objects behave alike.",
  ["inputs", "configurations"], "every value graph and every pipeline of observing, substituting, swallowing and delegating steps",
  "tests use one or two pipelines on small values",
  [ENC, S + "extensions.py"], [("step chain", ENC + " DefaultEncodeContext.__encode_object_with_step"), ("dispatch", ENC + " TagWriter.encode")],
  observe=["EncodeStep calls", "v8serialize.dumps"])
p("P14", "Decode steps and options control exactly the types they name",
  "Each deserialization option (container types, constants, error builder, host-object reader, time zone, tag overrides, custom steps) changes the representation of exactly the JavaScript values it names, at every depth and position, and nothing else; the remaining structure, identity and order are as without it. Conflicting options are refused and an unsupported tag raises the documented error naming it.",
  ["inputs", "configurations"], "every stream and every combination of options and step pipelines",
  "tests set one option on one small value",
  [DEC, S + "extensions.py"], [("option handling", DEC + " loads, TagReader.__init__"), ("step chain", DEC + " DefaultDecodeContext"), ("tag registry", DEC + " TagReaderRegistry")],
  observe=["v8serialize.loads", "Decoder"])
p("P15", "Property keys follow JavaScript's rules for numbers and text",
  "A property key given as text, integer or float names the same property exactly when JavaScript converts both to the same property name: canonical array indexes up to 2^32-2 are integers in whatever form they are given, everything else is text spelled as JavaScript spells it. This holds alike for reading, writing, deleting, membership tests, construction and for keys in serialized data.",
  ["inputs"], "every string, integer and float key",
  "tests check a list of examples around small integers",
  [J + "_normalise_property_key.py", J + "jsobject.py", DEC], [("key normalisation", J + "_normalise_property_key.py")],
  observe=["JSObject/JSArray item access", "v8serialize.loads"])
p("P16", "Objects and arrays behave like JavaScript's over any history",
  "After any sequence of property operations an object or array holds what a JavaScript object or array restricted to plain data would: integer keys ascending before text keys in creation order, last write wins, deleting leaves a hole without changing length, array length grows to cover the highest index, and missing keys raise a key error. Length, iteration, membership, items, the integer part and the text part always agree with each other. Copies are independent objects with the same contents.",
  ["histories", "inputs"], "every sequence of construction, set, delete, pop, update, setdefault, clear, resize and list-style operations",
  "tests exercise operations singly or compare two implementations on short sequences without a model of the object itself",
  [J + "jsobject.py", J + "jsarray.py", J + "jsarrayproperties.py"], [("storage switch", J + "jsobject.py _ensure_array_capacity"), ("hole accounting", J + "jsarrayproperties.py")],
  state=[("array part", "dense or sparse storage of integer-named properties", J + "jsobject.py")],
  observe=["JSObject, JSArray mapping API", ".array", ".properties"])
p("P17", "Dense and sparse array storage are indistinguishable",
  "The two storage strategies for array elements give the same results, the same errors and the same contents for every sequence of list operations, and both agree with a plain list with holes. Counts of used elements, index iteration in each order, the live element view, equality and conversion to text always agree with the contents. Copies have the same elements, and their own.",
  ["histories", "inputs"], "every operation sequence over both storages, including lengths near 2^32-1",
  "the existing state-machine test covers a subset of operations without insertion of holes, out-of-range insertion or views",
  [J + "jsarrayproperties.py"], [("dense storage", J + "jsarrayproperties.py DenseArrayProperties"), ("sparse storage", J + "jsarrayproperties.py SparseArrayProperties"), ("sorted key cache", J + "jsarrayproperties.py _get_sorted_keys")],
  observe=["DenseArrayProperties, SparseArrayProperties public API"])
p("P18", "Maps follow same-value-zero keys and insertion order",
  "A map finds, replaces and removes entries exactly by JavaScript's same-value-zero rule (NaN equals itself, 0 equals -0, numbers equal across int and float but not to booleans, text and bytes by content, all other objects by identity, hashable or not), and iterates in insertion order with replaced keys keeping their position. Comparison with other maps and with ordinary dictionaries follows the documented rules, all read operations agree with each other, and copies are independent maps that find their keys.",
  ["histories", "inputs"], "every operation sequence over keys of every type",
  "tests use a few key types in short sequences",
  [J + "jsmap.py", J + "_equality.py"], [("same-value-zero key", J + "_equality.py"), ("map storage", J + "jsmap.py")],
  observe=["JSMap API", "same_value_zero"])
p("P19", "Sets follow same-value-zero membership and insertion order",
  "A set adds, finds and removes members exactly by JavaScript's same-value-zero rule (text and bytes by content, other objects by identity), keeps insertion order, and its set algebra with any iterable gives what the mathematical operations under that rule give. Equality with other sets and with ordinary sets follows the documented rules, all read operations agree with each other, and copies are independent sets that find their members.",
  ["histories", "inputs"], "every operation sequence over members of every type",
  "tests use a few member types in short sequences",
  [J + "jsset.py", J + "_equality.py"], [("same-value-zero key", J + "_equality.py"), ("set storage", J + "jsset.py")],
  observe=["JSSet API"])
p("P20", "Equality of cyclic values terminates and respects structure",
  "Comparing any two values, however cyclic, terminates with a result that is reflexive, symmetric, true for a structure-preserving copy and false when any reachable leaf, key, order, length or kind differs or when the identity structure of a cycle differs. Concurrent comparisons of the same objects in several threads give the same results, and an exception during a comparison does not affect later ones.",
  ["inputs", "schedules", "fault_sequences"], "every pair of graphs, every interleaving of comparisons, every point where a member's comparison raises",
  "tests compare a few hand-built cycles in one thread",
  [S + "_recursive_eq.py", J + "jsobject.py", J + "jsmap.py", J + "jsset.py", J + "jserror.py", J + "jsarrayproperties.py"], [("running comparison set", S + "_recursive_eq.py")],
  state=[("running comparisons", "objects being compared per thread; empty when idle", S + "_recursive_eq.py")],
  observe=["== on JavaScript equivalents"])
p("P21", "Buffers and views track size, range and sharing as in JavaScript",
  "A buffer keeps its bytes, length, maximum length and mutability as constructed and resizes only within its limit, filling with zeros; views see live data of the same memory, shrink and grow with length-tracking, become empty and offset zero while out of range and recover when the buffer grows back. Creating a view checks alignment and bounds as JavaScript does, and no access ever reaches outside the buffer.",
  ["histories", "inputs"], "every buffer configuration, every set of views, every sequence of resizes and writes",
  "tests check single resizes with chosen sizes",
  [J + "jsbuffers.py"], [("resize", J + "jsbuffers.py JSArrayBuffer.resize"), ("range computation", J + "jsbuffers.py JSArrayBufferView"), ("validation", J + "jsbuffers.py from_bytes")],
  observe=["JSArrayBuffer, JSTypedArray, JSDataView API"])
p("P22", "Typed element access reads and writes the right bytes",
  "Reading or writing an element through any typed view, or any width at any offset and byte order through a data view, touches exactly the bytes JavaScript would and converts them to the same number; out-of-range offsets, and values the element cannot hold, raise an error and change nothing, and read-only views cannot be written.",
  ["inputs", "histories"], "every view type, offset, byte order and value",
  "tests check chosen values per accessor",
  [J + "jsbuffers.py"], [("data view accessors", J + "jsbuffers.py DataViewBuffer"), ("element formats", J + "jsbuffers.py DataFormat")],
  observe=["get_buffer()", "DataViewBuffer methods", "node DataView"])
p("P23", "Errors and Python exceptions keep name, message, stack and cause",
  "Errors round-trip with name (known names kept, others becoming plain errors), message, stack and cause of any value, whether or not fields are missing; Python exceptions of any shape (chained, grouped, with notes, without traceback) serialize as errors whose message and stack describe the exception, its frames most recent first, its context and its sub-exceptions, and whose cause is the explicit cause. Without the circular-cause feature a self-referencing cause is refused with the documented error and any other cause graph is accepted.",
  ["inputs", "configurations"], "every error graph and every Python exception shape",
  "tests hold a handful of exceptions",
  [J + "jserror.py", J + "_v8traceback.py", ENC, DEC, S + "constants.py"], [("error writing", ENC + " write_js_error"), ("error reading", DEC + " read_js_error"), ("stack formatting", J + "_v8traceback.py")],
  observe=["v8serialize.dumps", "v8serialize.loads", "JSError", "JSErrorData"])
p("P24", "Regular expressions keep source and flags across conversions",
  "Every valid combination of JavaScript flags and every source survives serialization, keeps its textual flags form, and combinations JavaScript forbids are refused; Python patterns convert to the JavaScript flags that mean the same and back (ignore-case, multi-line, dot-all and Unicode, as UnicodeSets), or fail with the documented error when no equivalent exists (verbose patterns; linear expressions, sources Python cannot compile).",
  ["inputs", "configurations"], "every source text, all flag sets on both sides",
  "tests check single flags",
  [J + "jsregexp.py", S + "constants.py", ENC, DEC], [("flag tables", S + "constants.py JSRegExpFlag"), ("conversion", J + "jsregexp.py")],
  observe=["JSRegExp", "JSRegExpFlag", "v8serialize.dumps/loads"])
p("P25", "Dates denote the same instant on both sides",
  "A date and time serializes to the millisecond value JavaScript would hold for the same instant (naive values being local time), and a JavaScript date deserializes to a date and time of that same instant, naive local or in the requested time zone, to the microsecond. Instants outside the range of Python's type are rejected with the decoding error.",
  ["inputs", "configurations"], "every instant, every time zone and local-time fold",
  "tests sample a narrow range with tolerance and never compare with JavaScript",
  [ENC, DEC], [("date writing", ENC + " write_js_date"), ("date reading", DEC + " read_js_date")],
  observe=["v8serialize.dumps/loads", "node Date"])
p("P26", "Printing any value is safe, bounded and restores its settings",
  "Printing any value, however cyclic, deep or large, terminates without error, and JS containers show nothing beyond the configured depth and length limits, mark what they leave out, and show everything within the limits; for acyclic JS containers, errors and buffers within the limits, with contents that Python can print as expressions, the text evaluates back to an equal value (aside from enum members such as flags, which Python prints as <...>). A print that is interrupted, or that runs in several threads at once, does not affect other prints. Temporary print settings apply only inside their block and are restored after it, also when it raises, with a warning when blocks are closed out of order.",
  ["inputs", "histories", "schedules"], "every value graph, every nesting and interleaving of settings blocks",
  "tests print fixed samples",
  [J + "_repr.py"], [("recursion guard", J + "_repr.py RecursiveReprMixin"), ("settings", J + "_repr.py js_repr_settings")],
  observe=["repr()", "js_repr_settings"])
p("P27", "Node.js buffer extension data is read and written exactly",
  "Every typed array, data view and buffer kind Node.js writes in its own extension format is read as the matching view with exactly the bytes of the viewed region, including when shared, and our writer's extension output is read by Node.js as the same kind and bytes. Unknown kinds and lengths beyond the end of the data raise the documented decoding error, lengths that are no multiple of the element size give the complete elements as in Node.js, data that ends early or holds oversized numbers is refused, and views the extension cannot express fall back to the ordinary encoding.",
  ["inputs"], "every view kind, region and position in a graph",
  "tests read one or two recorded samples per kind",
  [S + "extensions.py", ENC, DEC], [("extension codec", S + "extensions.py")],
  observe=["loads(nodejs=...)", "dumps with the Node.js extension step", "node v8.serialize/deserialize"])
p("P28", "Low-level reads invert low-level writes at exact positions",
  "For each primitive of the format, writing any legal value with the low-level writer and reading it back returns the same value and advances exactly past the bytes written, in any sequence on one stream; numbers, text and references outside a primitive's range, and tags outside a constraint in force, are refused without writing anything. Items nest in every container with the object ids of the order they begin in. Peeking never moves the position, reading with an expected kind fails, not moved past the tag, when another kind is present, and data cut short anywhere or out of a primitive's range raises the documented decoding error.",
  ["inputs", "programs"], "every sequence of primitive writes with any values",
  "tests round-trip one primitive per stream",
  [ENC, DEC], [("writer primitives", ENC + " WritableTagStream"), ("reader primitives", DEC + " ReadableTagStream")],
  observe=["WritableTagStream", "ReadableTagStream"])

p("P29", "Buffers and value objects compare by content, and hash alike",
  "Buffers, views, boxed primitives, regular expressions and references to shared or transferred objects are equal exactly when their contents are: buffers with the same bytes, maximum length and resizability; views with equal elements, whatever their kinds and however their memory is held, as it is at the time of the comparison (empty while out of range); views of memory Python cannot access when they are of one kind and view the same region of the same buffer; boxed primitives of the same kind and value; expressions of the same source and flags. Comparison is symmetric, != is its negation, and values of different JavaScript types are never equal. Equal values that can be hashed hash alike and find each other in dicts and sets, hashable values cannot be changed, and values that can change have no hash.",
  ["inputs", "histories"], "every pair of values and backing memory, every history of writes and resizes between comparisons",
  "tests compare a few views and buffers and never their hashes",
  [J + "jsbuffers.py", J + "jsprimitiveobject.py", J + "jsregexp.py", J + "_v8.py"], [("view comparison", J + "jsbuffers.py JSArrayBufferView.__eq__"), ("view hash", J + "jsbuffers.py JSArrayBufferView.__hash__")],
  observe=["==, != and hash() on buffers, views, boxed primitives, regular expressions, references"])

p("P30", "Copies and pickles hold the same value and share nothing that can change",
  "A deep copy, or a pickle and its loading (protocol 2 and later), of any value made of the library's types is the same JavaScript value: the same kinds, contents, order, array lengths and holes, sharing, cycles and views of the same buffers, of the same Python classes with their attributes, serialized as the same bytes. Nothing that can change is shared: whatever is done to the objects of one leaves the other as it was. A shallow copy of an object, array, map, set or error is a new one of the same class with the same members, and changing it leaves the original as it was. undefined and holes stay themselves.",
  ["inputs", "histories"], "every value made by the user or by loads(), every way of copying it, every change after copying",
  "no test copies or pickles a value",
  [J + "jsobject.py", J + "jsarrayproperties.py", J + "jsmap.py", J + "jsset.py", J + "jserror.py", J + "jsbuffers.py", J + "jsundefined.py"],
  [("object state", J + "jsobject.py JSObject.__getstate__"), ("map state", J + "jsmap.py JSMap.__getstate__"), ("set state", J + "jsset.py JSSet.__getstate__")],
  observe=["copy.copy, copy.deepcopy, pickle on JavaScript equivalents"])

p("P31", "Errors tell what failed, and survive being copied or sent between processes",
  "The errors the library raises belong to the documented classes and hold what failed: undecodable data and a position in it, the very value that cannot be written, the feature that is required, the key that was looked up, the offsets and lengths that do not fit. They can be printed, and each copy of an error (copy, deepcopy, every pickle protocol, or a process pool handing over a failed task's error) is an error of the same class with the same message, text, arguments, fields, notes and attributes, caught by the same handlers; this also holds for users' subclasses. Copying changes nothing.",
  ["inputs", "faults"], "every failing input, every place an unwritable value can be in, every class of error and way of copying it",
  "tests look at the type and message of a few errors",
  ["src/v8serialize/_errors.py", ENC, DEC, J + "jsbuffers.py", J + "jserror.py"], [("errors", "src/v8serialize/_errors.py V8SerializeError")],
  observe=["exceptions raised by the public API"])

p("P32", "Finished calls keep nothing alive, and repeating them accumulates nothing",
  "Once a call has returned or raised and its result or error is dropped, the library holds no reference to the objects it was given or made (a bounded cache of strings, numbers or dates aside): input objects have exactly the references they had before, results are released, input buffers, files and mappings can be resized, released and closed, members removed from a collection or never accepted by one are released, and memory looked at through views is only exported while a view is in use. Repeating any call, with distinct data and whether it succeeds or fails, does not make the memory the interpreter has allocated grow without bound, and classes made at run time are released with their values.",
  ["inputs", "histories", "faults"], "every public call with any values, succeeding or failing, and every history of calls and changes to collections",
  "tests look at results, never at what is still referred to after a call, and make each call once; a leak only shows in long-running processes",
  [ENC, DEC, REF, J + "jsmap.py", J + "jsobject.py", J + "_v8.py", J + "jsbuffers.py"],
  [("reference log", REF + " SerializedObjectLog"), ("same-value-zero wrappers", J + "_equality.py"), ("buffer access", J + "jsbuffers.py get_buffer"), ("repr context", J + "_repr.py")],
  observe=["sys.getrefcount, weak references, buffer exports and sys.getallocatedblocks around public calls"])

p("P33", "The guarantees hold however the interpreter is started and set up",
  "All properties also hold, with no warning raised by the library, when Python runs with assertions off (-O, -OO), in development mode, with warnings as errors, with any hash seed, in an ASCII-only locale or UTF-8 mode, from a zip archive, with the garbage collector off or running constantly, while being traced or profiled, in other threads, tasks, contexts and subinterpreters, and whichever module of the library is imported first.",
  ["configurations", "inputs"], "every such configuration and combination of two, and every input of the other properties",
  "the tests run in one process with one configuration, assertions on and the test runner's own import order",
  [S + "__init__.py", ENC, DEC, REF, J + "__init__.py", J + "jsbuffers.py", J + "_repr.py"],
  [("validation", DEC + " ReadableTagStream"), ("package imports", S + "__init__.py"), ("context-local settings", J + "_repr.py")],
  observe=["the other properties' monitors, in processes of each configuration"])

p("P34", "Time and memory grow in proportion to the data",
  "Serializing, deserializing (any data, valid or not), comparing, printing, copying and iterating take time and memory proportional to the size of the value or data, up to a logarithmic factor; so do histories of single operations on collections: reading, writing, adding, deleting, appending and cutting off elements in any order of keys, and clearing. Eight times as much data never takes sixty-four times the work. (Taking the first item with popitem or pop, shifting elements, and comparing or printing values with shared parts are excluded.)",
  ["inputs", "histories"], "every kind of container and element, key order, raw stream and history, at sizes growing without bound",
  "tests use small values, for which quadratic work is as fast as linear; only growth over sizes shows the difference",
  [ENC, DEC, REF, J + "jsarrayproperties.py", J + "jsobject.py", J + "jsmap.py", J + "jsset.py", J + "_repr.py", S + "_recursive_eq.py"],
  [("reference log", REF + " SerializedObjectLog"), ("sparse arrays", J + "jsarrayproperties.py SparseArrayProperties"), ("stream position", DEC + " ReadableTagStream")],
  observe=["executed library lines, traced memory and CPU time of public calls at growing sizes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
