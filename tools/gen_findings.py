"""Writes /verif/known-findings.jsonl (never run by a check)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl")
KNOWN = [
 ("P15", "float-keys", "numbers used as property keys that are not canonical array indexes are spelled as Python spells them, not as JavaScript's Number::toString: JSObject({1e21: 1}) has the key '1000000000000000000000', not '1e+21'; also float('inf'), float('nan'), 1e-7, 2.0**53 and above (test/jstypes pins the Python spelling)"),
 ("P10", "unicode-sets-ungated", "dumps(JSRegExp('a', JSRegExpFlag.UnicodeSets), features=SerializationFeature.MaxCompatibility) writes the v flag although RegExpUnicodeSets is not enabled (README example and tests rely on it, also for every Python str pattern)"),
 ("P01", "merged-members", "two distinct but equal bytes objects as members of one JSSet (or keys of one JSMap) are written as one object and merge into one member when read back (deduplication of equal immutable values is by design)"),
]
FIXED = [
 ("P02", "30a436c", "regular expressions were not counted as objects when encoding, so later back-references pointed at the wrong object"),
 ("P02", "0b81687", "errors without a cause were not counted as objects when encoding"),
 ("P02", "b8d1b2b", "shared and transferred array buffers were not counted as objects when decoding"),
 ("P04", "a599f30", "host objects were not given a reference id, so back-references after a Node.js Buffer were misread"),
 ("P25", "3c2d4d0", "dates were off by a microsecond or millisecond from float rounding"),
 ("P06", "d0e7872", "malformed data raised IndexError, ValueError, OverflowError, AssertionError... instead of DecodeV8SerializeError"),
 ("P06", "39102ac", "a few bytes of sparse array data made decoding take quadratic time and memory"),
 ("P17", "305598f", "emptying a sparse array raised AssertionError"),
 ("P17", "08047a8", "trailing holes appended to a sparse array were lost"),
 ("P17", "7969838", "insert() at negative or too large positions differed from list.insert()"),
 ("P17", "c742dba", "elements() raised IndexError instead of KeyError for the element after the last"),
 ("P01", "b3894fe", "equal but different values (1, True, 1.0, 0.0, -0.0, equal objects) were substituted for one another while encoding"),
 ("P26", "1f0a638", "repr of a buffer view showed the wrong readonly value and did not evaluate back"),
 ("P11", "224f509", "lone surrogates, out of range integers and ids, and datetimes without timestamp raised undocumented errors"),
 ("P05", "e3944f4", "constants were written as object keys"),
 ("P28", "72b566c", "write_double of an integer too large for a double raised struct.error"),
 ("P28", "7d938ba", "a negative serialized id was taken as an index from the end of the log, and write_object_reference left its tag behind"),
 ("P28", "19344d2", "write_double left the tag behind when refusing a too large integer"),
 ("P23", "e5d72b1", "errors named URIError were written as plain errors"),
 ("P05", "7932860", "JSArrayBuffer(copy_data=False) over multi-byte arrays counted items instead of bytes"),
 ("P05", "9cc7506", "views over array.array were not written as views of an ArrayBuffer"),
 ("P08", "dececa2", "padding between a buffer and its view was not skipped"),
 ("P09", "f8298a4", "buffers with multi-byte or signed items were decoded by item instead of by byte"),
 ("P03", "98376f1", "views were flagged as resizable without ResizableArrayBuffers although their buffer was written as fixed, so V8 refused the data"),
 ("P04", "b9988aa", "boxed strings ignored the tag of the string they contain"),
 ("P01", "e462997", "serializing an instance of an int subclass (such as an IntEnum) that is not a uint32 compared it with up to 2**32 integers, taking minutes"),
 ("P06", "2183331", "lengths, counts, flags and ids given as varints of thousands of bytes raised ValueError (integer too large for the error message) instead of DecodeV8SerializeError"),
 ("P07", "a97fa9a", "a resizable ArrayBuffer whose last bytes were cut off was returned with fewer bytes than its length"),
 ("P27", "8588ac6", "views over shared or transferred buffers were written as empty Node.js buffers instead of in the ordinary encoding"),
 ("P21", "055e579", "views over buffers Python cannot access lost their offset and length"),
 ("P10", "35381be", "Encoder.first_v8_version raised ValueError when no features are enabled (the default)"),
 ("P11", "f3585a5", "serializing a compiled bytes pattern that is not UTF-8 raised UnicodeDecodeError"),
 ("P14", "e0f5148", "loads(jsset_type=set), as documented, raised TypeError for a Set"),
 ("P15", "4ffa7fd", "a property key of a str subclass (for example a member of a str enum) raised AssertionError in JSObject and JSArray"),
 ("P24", "d174042", "as_python_pattern() raised OverflowError or ValueError for sources like a{99999999999999}, also with throw=False"),
 ("P18", "93568a4", "JSMap(init=...) and JSMap(self=...) set or failed on entries named init and self"),
 ("P18", "3c22183", "copy.copy, copy.deepcopy and pickling of JSMap and JSSet gave broken or sharing copies"),
 ("P18", "273383b", "comparing JSMap or JSSet with an instance of a registered virtual subclass raised AttributeError"),
 ("P19", "66cd558", "JSSet minus a regular set matched members with == (1 removed True)"),
 ("P19", "092e088", "JSSets containing the same NaN were not equal"),
 ("P17", "2fd4fc4", "arrays containing the same NaN were not equal to themselves or a copy"),
 ("P19", "b5a5d27", "JSSet ^ dict keys matched members with =="),
 ("P19", "fa463d3", "JSSet ^= toggled members a regular set contains more than once under same-value-zero"),
 ("P20", "f5363fa", "cycles of different structure compared equal"),
 ("P21", "300c59a", "JSArrayBuffer with a negative length was an empty read-only buffer instead of an error"),
 ("P22", "02085a6", "DataViewBuffer methods zeroed the bytes of a value they refused to write"),
 ("P23", "0ee49d4", "errors made from SyntaxErrors had the source location as their message"),
 ("P23", "2c6130a", "errors made from exceptions lost causes that were also suppressed contexts of an earlier exception"),
 ("P23", "5919474", "errors made from exceptions lost causes also described in an exception group"),
 ("P25", "e0ef028", "dates read in time zones whose offset has a fraction of a second were off by that fraction"),
 ("P25", "d4c3baf", "dates in time zones whose offset has microseconds were written imprecisely, and datetimes that are naive because their time zone has no offset raised TypeError"),
 ("P26", "c41a06d", "printing truncated properties with an empty fillvalue raised IndexError"),
 ("P26", "1efc204", "printing JS types containing integers of more than 4300 digits raised ValueError"),
 ("P26", "f457df5", "instances of subclasses of JS types were printed as ..."),
 ("P26", "fb3f17f", "arrays of nothing but holes were printed as JSArray() and sparse arrays lost holes at their end"),
 ("P26", "2fae0f9", "keys that are keywords, or that Python normalises as identifiers, were printed as keyword arguments"),
 ("P26", "77f2d0c", "resizable buffers at their maximum length were printed as fixed-length ones"),
 ("P29", "71fbade", "views of buffers Python cannot access were equal to every other empty view"),
 ("P29", "e54dc41", "equal views of different types had different hashes"),
 ("P17", "2c1f331", "copies of array properties shared their elements with the original"),
 ("P16", "bce43e0", "copies of JSObject and JSArray shared their properties, and deepcopy and pickling failed"),
 ("P31", "dc14271", "errors could not be copied or unpickled, which breaks process pools that hand them over"),
 ("P34", "f4c9090", "making a sparse array shorter copied all its elements when few were cut off"),
 ("P34", "99c5d66", "popping the last element of a sparse array renumbered all others"),
 ("P34", "c4095a1", "clearing objects and arrays took quadratic time"),
]
with open(OUT, "w") as f:
    for p, k, w in KNOWN:
        f.write(json.dumps(dict(property=p, key=k, status="known", what=w)) + "\n")
    for p, c, w in FIXED:
        f.write(json.dumps(dict(property=p, status="fixed", commit=c, what=f"fixed: property={p} {c} {w}")) + "\n")
