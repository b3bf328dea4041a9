"""The properties: what they say, and which harness entries decide them."""

ASSUMPTIONS = [
    "the IR that rustc/LLVM produce from /repo at opt-level 1 (overflow checks and debug assertions on, panic=abort, "
    "x86-64) stands for the code; std, alloc and core are executed from their own IR, not modelled",
    "the allocator never fails; heap addresses are arbitrary but fixed per path",
    "symbolic streams are well formed: one value per slot, balanced begin/end, enum variants are tags, tagged values, "
    "records, tuples or enums",
    "Z3's verdicts are trusted; the thorough tier re-decides a sample of the queries with cvc5 and a newer Z3",
]

PROPS = {}


def prop(id, title, statement, over, quant, why, files, mechanism, features, quick, thorough=(), reach=None,
         bounds="", assumptions=(), **kw):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                     mechanism=mechanism, features=features, quick=list(quick), thorough=list(thorough),
                     reach=reach or {}, bounds=bounds, assumptions=list(assumptions), **kw)


# ---------------------------------------------------------------- JSON

prop(
    "J01", "JSON output is exactly the document the streamed value describes",
    "Streaming any well-formed value as JSON yields syntactically valid JSON that denotes that value: sequences and "
    "tuples are arrays in order, maps and records are objects in order, null and booleans are themselves, and an enum "
    "with a labeled variant is an object with that one key while an unlabeled one is its content. Delimiters, commas "
    "and colons are balanced for every nesting of sequences, maps, records, tuples, tagged values, enums within enums, "
    "empty containers and tag hints, however the headers (tag, label, index, size hint) are combined. A value that "
    "reports an error while streaming makes the serialization fail.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds, with symbolic scalars, labels and indexes in every position",
    "the tests hold a few dozen fixed values; the state that decides where commas, keys and closing braces go is "
    "carried across calls and only breaks for particular nestings",
    ["json/src/to_fmt.rs", "json/src/to_string.rs"],
    [dict(name="enum/internally tagged state and separators of the formatter", where="json/src/to_fmt.rs")],
    ["json"],
    ["h_json_struct", "h_json_enum", "h_json_nest", "h_json_rest", "h_json_hdr", "h_json_deep", "h_json_leaf", "h_json_full", "h_json_deep_leaf", "h_json_full2", "h_json_index",
     "h_json_leaf2", "h_json_big", "h_json_huge"],
    ["h_json_struct5", "h_json_nest7"],
    reach={"h_json_struct": [1, 2], "h_json_rest": [1, 2]},
    bounds="trees of up to 4 nodes of 10 kinds with up to 2 children each; enum chains of up to 5 nodes; containers of "
           "up to 6 nodes with 3 children; all 17 kinds (hints, fragments, record tuples, binary, values by reference "
           "and computed) up to 3 nodes, all 8 header combinations up to 2 nodes; chains of containers up to depth 24; sequences, maps and records of up to 300 entries, labels of 260 bytes, 260 levels. "
           "Thorough: 5 and 7 nodes. Scalars here are single digits and letters (their text is J03/J04).",
)
prop(
    "J02", "JSON object keys are always strings, and unusable keys are rejected",
    "Every key of a map comes out as a JSON string: text keys as their text, numbers and booleans as their usual "
    "spelling, tagged or labeled keys as what they wrap or are labeled with. A key that is a sequence, map, record or "
    "tuple makes the serialization fail instead of producing invalid JSON. What kind of key was used never changes how "
    "the value after it, or the next entry, is written.",
    ["inputs", "programs"],
    "every key tree of up to 3 nodes with every following value, integer keys, text keys of any ASCII content",
    "tests use text and a handful of integer keys; wrapped, labeled and enum keys and their effect on the following "
    "value are not exercised",
    ["json/src/to_fmt.rs"],
    [dict(name="key state and text quoter", where="json/src/to_fmt.rs")],
    ["json"],
    ["h_json_key", "h_json_key_full"], [],
    reach={"h_json_key": [1, 2]},
    bounds="maps of 1 or 2 entries; keys are trees of up to 3 nodes of 11 kinds, values of up to 2 nodes of 6 kinds; "
           "8-bit integer keys in full, fragmented text keys of any 3 ASCII characters",
)
prop(
    "J03", "JSON strings decode to exactly the text that was streamed",
    "Any text, split into any fragments, borrowed or computed, and wherever it occurs (value, map key, field label, "
    "tag or variant label), is written as a JSON string literal that a conforming parser decodes to exactly that text. "
    "Quotes, backslashes and control characters are always escaped, nothing else is lost, reordered or duplicated.",
    ["inputs"],
    "all UTF-8 text and all splits within the bounds",
    "tests sample a few strings; escaping is decided byte by byte and by runs, so errors hide at particular bytes, "
    "positions and fragment boundaries",
    ["json/src/to_fmt.rs"],
    [dict(name="escape_str", where="json/src/to_fmt.rs")],
    ["json"],
    ["h_json_str", "h_json_str4", "h_json_frags", "h_json_frags4", "h_json_frags_utf8", "h_json_long", "h_json_long_label",
     "h_json_longer", "h_json_big_text"],
    ["h_json_str5"],
    bounds="every UTF-8 string of up to 4 bytes (thorough: 5) at the root; up to 2 fragments of ASCII in 6 positions; a "
           "multi-byte character and an ASCII byte in two fragments; texts and labels of 18 to 20 bytes with two "
           "arbitrary ASCII bytes anywhere; texts of 40, 70, 140 and 260 bytes with one arbitrary byte anywhere; texts of 530 bytes and of 260 fragments with one arbitrary byte at chosen places",
    assumptions=["labels tagged as identifiers are Rust identifiers (the tag's contract), so they are not escaped"],
)
prop(
    "J04", "JSON numbers denote exactly the number that was streamed",
    "Integers of every width are written as their exact decimal value. Number text of the documented form is written "
    "as a valid JSON number with the same value, in whatever fragments it arrives and wherever it occurs, and finite "
    "floats as a valid JSON number that parses back to the same float. Not-a-number and infinities, as floats or as "
    "number text, are written as null.",
    ["inputs"],
    "all number text within the bounds in every fragmentation; integers around every type boundary; all non-finite "
    "floats",
    "the number rewriter is a state machine fed byte by byte across fragments; tests cover a list of literals",
    ["json/src/to_fmt.rs", "src/stream.rs"],
    [dict(name="number text writer", where="json/src/to_fmt.rs")],
    ["json"],
    ["h_json_int", "h_json_int_wide", "h_json_int_spread", "h_json_number", "h_json_number5", "h_json_number6", "h_json_nonfinite",
     "h_json_float", "h_json_float_exp", "h_json_number_ctx", "h_json_number_long"],
    ["h_json_number7", "h_json_number8", "h_json_number_long_all"],
    bounds="8-bit integers in full, 256-value windows at the edges of every wider type; number text of up to 6 (thorough "
           "8) characters of the documented grammar in up to 3 fragments, and of up to 130 with long runs of one digit and an arbitrary one per part in up to 4; every non-finite f32/f64; non-finite words in "
           "any case and split; finite f32/f64 of every exponent with 4 mantissas each by case split, and 27 edge cases (the "
           "shortest-float algorithm over arbitrary mantissas is outside reach of the solver)",
)
prop(
    "J05", "JSON writers agree, and a failed or partial write is never hidden",
    "Serializing to a string, a byte vector, a formatter or an I/O writer yields the same bytes and succeeds or fails "
    "alike. Whatever sequence of short writes, interruptions, refusals and errors an I/O writer or formatter answers "
    "with, success is reported only if it accepted the complete document, interruptions and short writes alone never "
    "cause failure, what it accepted is always a prefix of the document, and it isn't written to after an error.",
    ["inputs", "fault_sequences"],
    "every schedule of up to 3 short or interrupted writes and a final refusal or error, over documents of 5 shapes "
    "with symbolic content",
    "tests write to in-memory buffers that never fail",
    ["json/src/to_io.rs", "json/src/to_fmt.rs", "json/src/to_vec.rs", "json/src/to_string.rs", "json/src/value.rs"],
    [dict(name="io::Write adapter", where="json/src/to_io.rs")],
    ["json"],
    ["h_json_io", "h_json_fmt", "h_json_agree", "h_json_fmt_full", "h_json_fmt_big", "h_json_broken_full", "h_json_io_long"], ["h_json_io6"],
    reach={"h_json_io": [1, 2], "h_json_fmt": [1, 2], "h_json_agree": [1, 2]},
    bounds="5 document shapes; up to 3 faults (thorough 5) of 4 kinds at any call, short writes of 1 to 4 bytes; "
           "formatter failing at any of the first 12 calls, or 40 of every kind of value; one fault in documents of 260 characters and 130 elements; agreement on trees of up to 3 nodes of 8 kinds, with or "
           "without a failing element",
)
prop(
    "J06", "Embedded JSON is copied verbatim without disturbing its surroundings",
    "A string declared to be JSON is copied byte for byte into the document, unquoted; text declared to be escaped "
    "already is copied between quotes, and text declared to be a JSON number is copied unquoted, in any fragments. "
    "Text that follows is escaped again as usual.",
    ["inputs"],
    "every ASCII content of up to 3 bytes, split anywhere, at the root and inside a sequence",
    "tests embed one fixed document",
    ["json/src/value.rs", "json/src/to_fmt.rs", "json/src/tags.rs"],
    [dict(name="JSON_VALUE / JSON_TEXT / JSON_NUMBER tags", where="json/src/to_fmt.rs")],
    ["json"],
    ["h_json_embed", "h_json_native", "h_json_embed_long", "h_json_native_long"], [],
    bounds="contents of up to 3 arbitrary ASCII bytes, or of 40 to 1030 with one arbitrary, up to 2 fragments, root or first element of a sequence",
)

prop(
    "J07", "JSON of serde values is what serde_json writes",
    "A serde value bridged into sval and serialized with sval_json is byte for byte the JSON that serde_json writes for "
    "the value itself, whenever serde_json can write it, for every nesting of sequences, tuples, maps, structs, options, "
    "newtypes and the four kinds of enum variant. Exempt are unit structs, which sval renders as their name, and finite "
    "floats.",
    ["inputs"],
    "every value of up to 3 nodes over serde's data model, every chain of 4 variants and containers, every scalar in 9 positions, names that need escaping",
    "tests compare a handful of types",
    ["serde/src/to_value.rs", "json/src/to_fmt.rs", "json/src/to_string.rs"],
    [dict(name="ToValue", where="serde/src/to_value.rs"), dict(name="JSON writer", where="json/src/to_fmt.rs")],
    ["jserde"],
    ["h_jserde_tree", "h_jserde_scalar", "h_jserde_names", "h_jserde_chain", "h_jserde_big"], ["h_jserde_tree4"],
    reach={"h_jserde_tree": [1, 2], "h_jserde_scalar": [1, 2], "h_jserde_tree4": [1, 2]},
    bounds="trees of up to 3 nodes (thorough 4) of 2 children over serde's data model with symbolic leaves; scalars of all "
           "types (integers in 10-value windows at 0, MIN and MAX) in 9 positions; names of 1 arbitrary ASCII byte; chains "
           "of 4 wrappers of 7 kinds; strings of 1100 bytes, names of 260, 300 elements, 130 levels",
)

# ---------------------------------------------------------------- core

prop(
    "C01", "Integers keep their value when a stream handles only some widths",
    "An integer of any of the ten types streamed into a stream that handles only some integer widths arrives as exactly "
    "one number with the same mathematical value: through a wider method that the stream handles or through i64 when it "
    "fits 64 signed bits, and otherwise as text tagged as a NUMBER holding its exact decimal digits. No value is ever "
    "truncated, wrapped, or streamed as failing.",
    ["inputs"],
    "every value of every integer type; windows of 256 values for the digits of numbers beyond 64 bits; streams handling i64 only, or all widths",
    "tests stream a few small constants; the boundary between fitting and falling back is a single value per type",
    ["src/stream.rs", "src/data/number.rs"],
    [dict(name="default integer methods of Stream and the NUMBER fallback", where="src/stream.rs, src/data/number.rs")],
    ["core"],
    ["h_core_widen", "h_core_widen_big", "h_core_widen_all", "h_core_widen_spread",
     "h_core_widen_max"], [],
    reach={"h_core_widen_big": [1, 2]},
    bounds="which method is used, and the value it gets: all values of all types. The digits of number text: 256-value windows at "
           "i64::MAX, u64::MAX, i64::MIN, i128::MIN, i128::MAX, u128::MAX, 10^20, 10^38, -10^30 and at 32 points over the "
           "range of 128 bits",
)
prop(
    "C02", "Conversions of values return exact results or nothing",
    "Value::to_i8 ... to_u128, to_f32, to_f64, to_bool, to_text and to_binary return Some only with exactly the value "
    "the type streams: an integer converts to every integer type that can represent it and to no other, a boolean, "
    "float, text or binary value converts to itself and not to something else, and a value that streams its text in "
    "computed or several pieces never converts to part of it. Value::tag is the outermost tag. The answers are the "
    "same through references, boxes and options' payloads as on the value itself.",
    ["inputs", "programs"],
    "every integer of every type against every target type; every text and binary fragmentation up to two pieces, "
    "wrapped in tags, enums, and forwarding values",
    "tests cast a few constants; conversions differ per source and target type and at the limits of each",
    ["src/value.rs", "src/data/number.rs", "src/data/text.rs", "src/data/binary.rs", "src/data/option.rs"],
    [dict(name="default conversion methods and their specializations", where="src/value.rs, src/data/*.rs")],
    ["core"],
    ["h_core_cast_int", "h_core_cast_other", "h_core_cast_odd", "h_core_cast_default", "h_core_cast_frags", "h_core_cast_long", "h_core_value_tag"], [],
    bounds="full ranges of all ten integer types, through 5 wrappers; values of up to 3 nodes; text and binary pieces "
           "of up to 2 bytes, or 1100 with one arbitrary; to_f32/to_f64 of floats only, f32 NaN payloads excluded",
)
prop(
    "C03", "Indexes compare, hash, convert and print as the integers they hold",
    "An Index built from any constructor converts to each integer type exactly when the number fits, with that number; "
    "equality, ordering and hashing are those of the number (tags play no part); Display prints its decimal digits; "
    "cloning and tagging preserve the number.",
    ["inputs"],
    "every value of every constructor, every pair of them",
    "tests compare a few small indexes; signed and unsigned representations meet only at the 64-bit boundary",
    ["src/data.rs"],
    [dict(name="Index", where="src/data.rs")],
    ["core"],
    ["h_core_index", "h_core_index_cmp", "h_core_index_display"], [],
    bounds="all values of all constructors for conversion and comparison; Display on -255..255 and 256 values from i64::MIN",
)
prop(
    "C04", "Labels and tags keep their text, tag and identity when copied",
    "A Label keeps its text, its static text if it was static, and its tag through any history of clone, by_ref, "
    "to_owned and conversion; its owned copies don't depend on what it borrowed from. Equality, ordering and hashing "
    "are those of the text. Tags are equal exactly when their identifiers are; the built-in tags are pairwise distinct.",
    ["inputs", "histories"],
    "every history of up to 3 copies of labels with any ASCII text of up to 2 bytes and any tag; identifiers of up to "
    "17 bytes that differ in any one byte",
    "tests construct single labels; ownership of the text is hand-written unsafe code whose errors need a drop in between",
    ["src/data.rs", "src/data/tags.rs"],
    [dict(name="Label's owned/borrowed representation, Tag's identity", where="src/data.rs")],
    ["core"],
    ["h_core_label", "h_core_label_owned", "h_core_label_cmp", "h_core_label_long", "h_core_tag", "h_core_tag_long", "h_core_tags"], [],
    bounds="labels of up to 2 bytes, up to 3 copies; labels of 23 to 1030 bytes with one arbitrary byte; identifiers of 0 to 2 symbolic bytes, or up to 17 with one symbolic byte",
)
prop(
    "C06", "Default stream methods lower every value to the simpler ones faithfully",
    "A stream that implements only the required methods, or besides them any of the optional groups (binary, maps, "
    "records, tuples, record tuples, tags, tagged values, enums, hints), receives, for every well-formed value, a "
    "well-formed stream of just the methods it implements that still describes it: record tuples become records, records "
    "tagged maps, tuples tagged sequences, with the same tag, label and index, and without those groups maps, "
    "records, tuples and record tuples become sequences of their (key and) values as documented, binary becomes a sequence "
    "of its bytes, tags become their label or null, tagged values and enums their content, text pieces arrive in order. "
    "Size hints are never wrong where the value's own are right. When the stream fails at any call, the value stops there and "
    "reports the error.",
    ["inputs", "programs", "fault_sequences"],
    "every tree of stream calls up to the bounds, all header combinations, and every position of a failing call",
    "tests check the default of a few methods on single values",
    ["src/stream.rs"],
    [dict(name="default methods of Stream", where="src/stream.rs")],
    ["core"],
    ["h_core_part", "h_core_part_full", "h_core_part_full2", "h_core_part_leaf", "h_core_lower_leaf", "h_core_lower_full", "h_core_lower_full2", "h_core_lower", "h_core_lower_hdr", "h_core_lower4", "h_core_lower_none", "h_core_lower_fault", "h_core_lower_fault_full", "h_core_lower_fault_big", "h_core_lower_huge", "h_core_lower_broken", "h_core_lower_big"],
    ["h_core_lower5", "h_core_part_hdr"],
    reach={"h_core_lower_fault": [1, 2]},
    bounds="every subset of the 9 optional groups on trees of up to 3 nodes, full headers in 14 places; trees of up to 3 nodes of all 18 kinds, 4 nodes (thorough 5) of the 10 main kinds, all header combinations "
           "up to 2 nodes; 300 entries, 260 levels, 17 enums, text and binary of 1100 bytes; a failure at any of the first 14 calls",
)
prop(
    "C07", "Forwarding wrappers pass on every call unchanged",
    "Streaming through references and boxes (of values and of streams), Computed streams, value/value_computed and "
    "stream_ref delivers exactly the calls the value makes, in order, with the same tags, labels, indexes and size "
    "hints; the only difference allowed is that computed forwarding turns borrowed text and binary into computed. "
    "Errors of the value or of the stream come back, and nothing is streamed after one.",
    ["inputs", "programs", "fault_sequences"],
    "every tree of stream calls up to the bounds through each of 17 wrappers; every position of a failing call",
    "each forwarding method is one line out of ~60 per wrapper; a test would need to call each with distinguishable arguments",
    ["src/stream.rs", "src/value.rs"],
    [dict(name="Stream for &mut S / Box<S>, Value for &V / Box<V>, Computed", where="src/stream.rs, src/value.rs")],
    ["core"],
    ["h_core_forward_leaf", "h_core_forward_full", "h_core_forward_size", "h_core_forward_huge", "h_core_forward", "h_core_forward_hdr", "h_core_forward_hints", "h_core_forward3", "h_core_forward_fault",
     "h_core_forward_broken", "h_core_forward_fault_full", "h_core_forward_fault_big", "h_core_forward_broken_full", "h_core_forward_big"],
    ["h_core_forward_all"],
    reach={"h_core_forward_fault": [1, 2]},
    bounds="17 wrappers; trees of up to 2 nodes of all 19 kinds, 3 nodes of the main kinds; all header, hint and value-tag "
           "combinations up to 2 nodes; 300 entries, 260 levels, 17 enums, text and binary of 1100 bytes; any 64-bit size hint; the first 8 or 40 calls and six far ones fail",
)
prop(
    "C08", "Standard library values stream as the shapes they document",
    "Booleans, characters, strings, integers, floats, unit, Option, Display adapters, slices, vectors, arrays, tuples of "
    "every arity up to 16, BTreeMap, HashMap, MapSlice, BinarySlice and BinaryArray stream the documented kind with every "
    "element exactly once and in order, tuple items at their positions, exact size hints where known, and stop at the "
    "first error of the stream. stream_display, stream_display_fragments and stream_number stream the displayed text, and "
    "fail if formatting does.",
    ["inputs"],
    "every content of each type up to the bounds",
    "tests hold one or two fixed examples per type",
    ["src/data.rs", "src/data/text.rs", "src/data/binary.rs", "src/data/number.rs", "src/data/option.rs",
     "src/data/seq.rs", "src/data/map.rs"],
    [dict(name="impl Value for std types", where="src/data/*.rs")],
    ["core"],
    ["h_core_std_scalar", "h_core_std_compound", "h_core_std_tuple", "h_core_std_fault", "h_core_std_long"], [],
    bounds="every char, bool, integer and f64; strings and collections of up to 3 elements, and of 17 to 1030 with one arbitrary element; all tuple arities; one "
           "nested value with a failure at any of 16 calls",
)

# ---------------------------------------------------------------- buffer

prop(
    "B01", "A buffered value streams back exactly the value that was buffered",
    "Streaming a ValueBuf or Value that any well-formed value was buffered into produces the same stream: the same "
    "structure, numbers with their types, text and binary bytes, tags, hints, labels with their tags, indexes, value "
    "tags and size hints, in the same order (only how text and binary are split, and their size hints, may differ). It "
    "holds for every way to buffer (collect, collect_owned, streaming into it) and to read (in place, to_value, "
    "into_value, into_owned, clone, buffered again), whatever the size and depth of the value.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds with symbolic payloads, through nine ways to buffer and read",
    "tests buffer a few fixed values; lengths of nested parts are computed when containers end and used to slice on the "
    "way out, so errors need particular nestings",
    ["buffer/src/value.rs", "buffer/src/fragments.rs"],
    [dict(name="flat parts with skip lengths", where="buffer/src/value.rs")],
    ["buffer"],
    ["h_buf_leaf", "h_buf_leaf2", "h_buf_full", "h_buf_deep_leaf", "h_buf_utf8", "h_buf_full2", "h_buf_all", "h_buf_hdr", "h_buf_hdr_owned", "h_buf_main3", "h_buf_nest", "h_buf_long", "h_buf_deep",
     "h_buf_long_text", "h_buf_big", "h_buf_huge"],
    ["h_buf_nest6", "h_buf_main4"],
    bounds="trees of up to 2 nodes of all 19 kinds, 3 nodes of 10 kinds, 5 nodes of 7 kinds (thorough: 4 of 10, 6 of 6); "
           "all header, hint and tag combinations up to 2 nodes; sequences and maps of 15, 127, 258 and 33000 elements, "
           "chains of depth 7 to 130, text and binary of up to 1100 bytes and 260 fragments, labels of 260 bytes, with one symbolic element",
)
prop(
    "B02", "Buffers own what they must, reset cleanly and know when they are complete",
    "An owned buffer (collect_owned, into_owned) is unaffected by the end of the value it was made from, and what a "
    "buffer lends for the original lifetime outlives the buffer. is_complete is true exactly when a whole value has "
    "been buffered. After clear, a buffer behaves as new, whatever it held, partial values included. A value that fails "
    "fails to buffer, and a stream that fails stops a buffered value with that error.",
    ["inputs", "programs", "fault_sequences"],
    "every value up to the bounds cut off at every call; seven borrowing shapes through six ways of owning; a failing "
    "call at every position",
    "tests never drop the source before reading (the ownership code is unsafe transmutes) and check completeness on a "
    "few states",
    ["buffer/src/value.rs", "buffer/src/fragments.rs"],
    [dict(name="into_owned_in_place and lifetime transmutes; stack and flags reset by clear", where="buffer/src/value.rs")],
    ["buffer"],
    ["h_buf_owned", "h_buf_owned_long", "h_buf_borrow", "h_buf_complete", "h_buf_reuse", "h_buf_fault", "h_buf_broken", "h_buf_fault_full", "h_buf_broken_full", "h_buf_complete_big", "h_buf_fault_big"], [],
    reach={"h_buf_complete": [1, 2], "h_buf_fault": [1, 2]},
    bounds="values of up to 3 nodes of 14 kinds cut at any of 14 calls; pairs of values of up to 2 nodes; large values (260 levels, 300 elements) watched after every call, and failing at six places; memory of every "
           "object is tracked, so any access to freed memory is reported",
)
prop(
    "B03", "Text and binary buffers hold exactly the concatenation of their pieces",
    "After any history of pushing borrowed or computed fragments, displaying, writing, cloning and clearing, a TextBuf "
    "or BinaryBuf holds the concatenation of what was pushed since the last clear; as_borrowed_* only ever returns data "
    "that lives as long as promised. collect succeeds exactly for text (resp. binary or sequences of bytes), however it "
    "is split, wrapped or interleaved with hints, and fails with an error for anything else.",
    ["inputs", "histories"],
    "every history of up to 3 operations with arbitrary ASCII pieces of up to 2 bytes; every value of up to 2 nodes",
    "tests push one or two fixed fragments; switching from borrowed to owned depends on the order of operations",
    ["buffer/src/fragments.rs"],
    [dict(name="FragmentBuf, TextCollector, BinaryCollector", where="buffer/src/fragments.rs")],
    ["buffer"],
    ["h_buf_text", "h_buf_text_many", "h_buf_utf8", "h_buf_bin", "h_buf_collect", "h_buf_collect_seq", "h_buf_hinted", "h_buf_long_text"], [],
    reach={"h_buf_text": [1, 2], "h_buf_bin": [1, 2], "h_buf_collect": [1, 2]},
    bounds="histories of up to 3 operations, or of 6 pushes, clears and clones; pieces of up to 2 bytes, or up to 300 with one symbolic byte",
)

# ---------------------------------------------------------------- text formatting

prop(
    "F01", "Formatted text shows exactly the structure of the streamed value",
    "Formatting any well-formed value as text gives the Debug-like rendering of it: `[a, b]` for sequences and binary, "
    "`{ k: v }` for maps, `Type { field: v }` for records, `Type(a, b)` for tuples, `Label(v)` for labeled tagged "
    "values, the label (or `()`) of tags and empty enums, and just the variant for enums that hold one, also when that "
    "variant is empty or holds something empty. Separators and delimiters are right for every nesting. A TokenWrite is "
    "given the same text, with every token under its proper tag, and is told correctly what is first and what is empty.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds, with symbolic scalars and labels in every position",
    "tests format a few fixed values; one flag is shared by all levels of nesting, so errors only show for particular "
    "nestings of empty and non-empty values",
    ["fmt/src/writer.rs", "fmt/src/token_write.rs", "fmt/src/to_write.rs"],
    [dict(name="is_current_depth_empty across nesting", where="fmt/src/writer.rs")],
    ["fmt"],
    ["h_fmt_leaf", "h_fmt_leaf2", "h_fmt_full", "h_fmt_deep_leaf", "h_fmt_full2", "h_fmt_struct", "h_fmt_enum", "h_fmt_nest", "h_fmt_all", "h_fmt_hdr", "h_fmt_deep", "h_fmt_wide", "h_fmt_tokens",
     "h_fmt_tokens_all", "h_fmt_big", "h_fmt_huge"],
    ["h_fmt_struct5"],
    bounds="trees of up to 4 nodes of 10 kinds with 2 children, enums of up to 5 nodes, containers of up to 5 nodes with 3 "
           "children, 3 nodes of all 17 kinds, 2 nodes with all headers; depth up to 260, width up to 300, text and binary of 1100 bytes; token kinds on "
           "up to 3 nodes. Thorough: 5 nodes of 8 kinds.",
)
prop(
    "F02", "Formatted text, numbers and escapes denote exactly the scalars streamed",
    "Text is written between quotes with every character escaped as char::escape_debug does, whatever its content, "
    "length, fragments and surroundings; text tagged as a number is written as is, and nothing around it is affected. "
    "Integers of every width are written in decimal, booleans as true or false, null as `()`, floats so that they parse "
    "back to themselves. ToFmt's Display and Debug, stream_to_fmt and stream_to_write give the same text (finite floats excepted).",
    ["inputs"],
    "all ASCII text and splits within the bounds, integers around the edges of every type, all non-finite floats",
    "tests sample a few strings and numbers; escaping works on runs, so errors hide at particular characters and "
    "positions",
    ["fmt/src/token_write.rs", "fmt/src/writer.rs", "fmt/src/to_fmt.rs"],
    [dict(name="write_escape_debug; is_number", where="fmt/src/token_write.rs")],
    ["fmt"],
    ["h_fmt_text", "h_fmt_wide_chars", "h_fmt_text_in", "h_fmt_long", "h_fmt_longer", "h_fmt_bin", "h_fmt_number",
     "h_fmt_int", "h_fmt_float", "h_fmt_float_exp"], [],
    bounds="any ASCII text of up to 3 bytes in 2 fragments; 16 characters outside ASCII next to any ASCII character; text "
           "of 12 bytes with 2 arbitrary ones, of 40 to 140 with 1; number text of 2 arbitrary ASCII characters in 6 "
           "contexts; 256-value windows at the edges of every integer type; finite floats of every exponent with 4 "
           "mantissas each by case split, and 12 edge cases",
)
prop(
    "F03", "Formatting errors surface, and formattable things stream as their text",
    "A writer that fails at any call makes formatting fail, is not written to again and has received a prefix of the "
    "text. A value that fails makes stream_to_write fail, and ToFmt show the text so far. DebugToValue, DisplayToValue, "
    "stream_debug and stream_display stream exactly one text value whose content is the formatted text, however the "
    "implementation splits its writes, and fail if it or the stream fails.",
    ["inputs", "fault_sequences"],
    "a failure at every call of eight shapes with symbolic content; formatters writing two arbitrary pieces",
    "tests format into strings, which never fail",
    ["fmt/src/to_write.rs", "fmt/src/to_fmt.rs", "fmt/src/to_value.rs", "fmt/src/writer.rs"],
    [dict(name="error mapping between fmt and sval", where="fmt/src/to_value.rs")],
    ["fmt"],
    ["h_fmt_flaky", "h_fmt_broken", "h_fmt_value", "h_fmt_value_flaky", "h_fmt_flaky_full", "h_fmt_flaky_big", "h_fmt_broken_full"], [],
    reach={"h_fmt_flaky": [1, 2], "h_fmt_broken": [2], "h_fmt_value": [1, 2]},
    bounds="writers that fail for good from any of the first 14 calls on; failing values in 4 places after up to 2 nodes; "
           "pieces of up to 2 ASCII bytes",
)


# ---------------------------------------------------------------- flatten

prop(
    "L01", "Flattening splices exactly a value's entries into its container",
    "Flattening a value onto an open map, sequence, record, tuple or record tuple contributes exactly the entries of "
    "that value, in order, between the container's own: those of a sequence, map, record or tuple, also when wrapped in "
    "tags or enums; a variant that wraps a value is one entry under its label; scalars and text contribute nothing. "
    "Nested containers inside the entries are left alone, entry values and tags are unchanged, and the result is a "
    "well-formed stream. An entry that needs a label gets its own, its key's text or its index; an entry that needs an "
    "index gets its own (offsets are shifted by the start) or the next free one, and the offset returned is the one "
    "after the last entry's.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds, onto each of the five targets, from any start offset",
    "tests flatten a handful of derived structs; depth tracking, key buffering and index allocation only go wrong for "
    "particular nestings, keys and offsets",
    ["flatten/src/lib.rs", "flatten/src/flattener.rs", "flatten/src/index.rs", "flatten/src/label.rs"],
    [dict(name="depth and enum state of the flattener", where="flatten/src/flattener.rs"),
     dict(name="index allocation", where="flatten/src/index.rs"),
     dict(name="key buffering", where="flatten/src/label.rs")],
    ["flatten"],
    ["h_flat_leaf", "h_flat_full", "h_flat_full2", "h_flat_main", "h_flat_all", "h_flat_enum", "h_flat_nest", "h_flat_key", "h_flat_key3", "h_flat_key_scalar",
     "h_flat_index", "h_flat_index_any", "h_flat_wide", "h_flat_twice", "h_flat_big", "h_flat_huge"],
    [],
    bounds="trees of up to 3 nodes with labels, 4 nodes without, all 16 kinds up to 2 nodes; map keys of up to 4 nodes; "
           "8-bit and edge-of-64/128-bit integer keys; 300 entries, 260 levels, text of 1100 bytes; any start offset and index between half the extremes of isize",
    assumptions=["indexes and offsets stay clear of isize overflow"],
)
prop(
    "L02", "Flattening errors surface",
    "When the stream fails at any call, or the flattened value itself fails at any depth (as a value or as a map key), "
    "flattening fails and the stream is not called again.",
    ["inputs", "fault_sequences"],
    "a failure at every call, and failing values in three places, onto each of the five targets",
    "tests only flatten into streams that never fail",
    ["flatten/src/flattener.rs", "flatten/src/label.rs"],
    [dict(name="error propagation", where="flatten/src/flattener.rs")],
    ["flatten"],
    ["h_flat_fault", "h_flat_fault_full", "h_flat_fault_big", "h_flat_broken"], [],
    reach={"h_flat_fault": [1, 2]},
    bounds="trees of up to 3 nodes and the first 24 calls; every kind of leaf and of value with full headers in 14 places, and the first 40 calls; values that fail in 13 places and 13 shapes",
)

# ---------------------------------------------------------------- nested

prop(
    "N01", "Streaming through sval_nested preserves the value",
    "Any well-formed value streamed through the recursive API (by reference or computed) reaches a nested stream as the "
    "same value: the same kinds, scalars, text and binary content, keys, labels, indexes, tags, size hints and nesting, "
    "with each element, key, field, variant and tagged value delivered to its own slot, enums within enums included. Each "
    "value handed to a container's stream is itself a complete well-formed value. Only standalone tag hints are dropped.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds, each contained value consumed recursively or as a flat stream",
    "the tests hold a few derived types; what is buffered and what is passed on depends on the nesting",
    ["nested/src/lib.rs", "nested/src/flat.rs", "nested/src/flat_enum.rs", "buffer/src/value.rs"],
    [dict(name="state machine from flat to nested", where="nested/src/flat.rs"),
     dict(name="queue of enclosing enums", where="nested/src/flat_enum.rs")],
    ["nested"],
    ["h_nested_leaf", "h_nested_leaf2", "h_nested_deep_leaf", "h_nested_full", "h_nested_full2", "h_nested_main", "h_nested_kinds", "h_nested_hdr", "h_nested_payload", "h_nested_enum", "h_nested_enum_lab",
     "h_nested_flat", "h_nested_flat_all", "h_nested_wide", "h_nested_chain", "h_nested_long", "h_nested_big"],
    ["h_nested_all", "h_nested_deep", "h_nested_enum_hdr"],
    bounds="trees of up to 4 nodes of 10 kinds, all 19 kinds up to 3 nodes, enum chains of up to 4 nodes, all 8 header "
           "combinations up to 2 nodes; 300 entries, depth 70, 17 enums, text of 1100 bytes. Thorough: 5 nodes, all headers on 3",
)
prop(
    "N02", "The nested API's defaults keep values intact, and its errors surface",
    "A nested stream that implements only the required methods still sees the value: integers as i64 or, beyond it, as "
    "their exact decimal text; f32 as the same f64; binary as a sequence of its bytes; a tag as its label or null; a "
    "tagged value as what it wraps. When the stream fails at any call, or a value fails before, while or after "
    "streaming, the result is an error and the stream isn't called again.",
    ["inputs", "fault_sequences"],
    "every integer that fits i64 in each type, windows around the edges, trees up to the bounds, a failure at every call",
    "tests use streams that implement everything and never fail",
    ["nested/src/lib.rs", "nested/src/flat.rs"],
    [dict(name="default_stream", where="nested/src/lib.rs"), dict(name="try_catch and finish", where="nested/src/flat.rs")],
    ["nested"],
    ["h_nested_full", "h_nested_full2", "h_nested_leaf", "h_nested_least", "h_nested_least_all", "h_nested_least_int", "h_nested_least_big", "h_nested_fault",
     "h_nested_broken", "h_nested_late", "h_nested_fault_full", "h_nested_fault_big", "h_nested_broken_full"],
    [],
    reach={"h_nested_fault": [1, 2]},
    bounds="trees of up to 4 nodes (3 with all kinds); integers beyond i64 in 16-value windows at the ends of u64, u128, "
           "i128 and i64; the first 14 calls fail; failing values in 8 places, after up to 2 nodes in 6; every kind of value in 14 places failing at the first 24 calls",
)

prop(
    "A01", "Without alloc, values are kept exactly or refused",
    "With the alloc features of sval_buffer, sval_nested and sval_flatten off (and no_debug_assertions on), whatever is "
    "buffered, flattened or streamed through the nested API is either exactly the value it is with an allocator or an "
    "error, never a panic and never part of the value. Scalars, tags with static labels, and text or binary in one "
    "borrowed piece are always accepted by buffers, and scalars inside single containers with static labels always "
    "pass through the nested API, labels and their tags included. A buffer that refused a value can be cleared and used again.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds, with symbolic content, borrowed or computed",
    "the test suite only runs with the default features, so nothing runs this configuration",
    ["buffer/src/text.rs", "buffer/src/binary.rs", "buffer/src/value.rs", "buffer/src/error.rs", "nested/src/lib.rs",
     "nested/src/error.rs", "nested/src/flat_enum.rs", "flatten/src/label.rs", "src/data.rs"],
    [dict(name="no_alloc errors", where="buffer/src/error.rs"),
     dict(name="labels without alloc", where="nested/src/lib.rs owned_label_ref")],
    ["noalloc"],
    ["h_na_buf", "h_na_buf_leaf", "h_na_buf_within", "h_na_buf_frags", "h_na_buf_reuse", "h_na_text", "h_na_bin",
     "h_na_collect", "h_na_label", "h_na_nested_must", "h_nested_main", "h_nested_leaf", "h_nested_full", "h_nested_kinds",
     "h_nested_enum", "h_nested_payload", "h_nested_hdr", "h_nested_least", "h_nested_broken", "h_nested_late",
     "h_flat_main", "h_flat_leaf", "h_flat_enum", "h_flat_key"],
    ["h_nested_all", "h_nested_deep", "h_nested_leaf2", "h_nested_enum_hdr", "h_flat_all", "h_flat_nest", "h_flat_twice"],
    reach={"h_na_buf": [1, 2], "h_na_buf_within": [2], "h_na_buf_leaf": [1, 2], "h_na_buf_frags": [1, 2],
           "h_na_text": [1, 2], "h_na_bin": [1, 2], "h_na_collect": [1, 2]},
    bounds="trees of up to 4 nodes of 10 kinds, all leaf kinds alone and in each of 13 places, up to 3 fragments of text "
           "or binary, borrowed or computed; see N01 and L01 for their trees. Thorough: all 19 kinds and 5 nodes",
)

# ---------------------------------------------------------------- serde

prop(
    "S01", "Any serde::Serialize streams as the equivalent sval value",
    "Whatever a type serializes as, ToValue (owned or borrowed) and sval_serde::stream produce one well-formed stream "
    "that means the same: scalars keep their type and value, strings, chars and collected strings are text, bytes are "
    "binary, options and units are sval's own, unit structs are tags, newtypes are tagged values, structs are records "
    "and tuples are tuples with their names, fields, indexes and lengths, and variants are enums with the enum's name "
    "around the variant's name and index.",
    ["inputs", "programs"],
    "every tree of serde data model calls up to the bounds, with symbolic scalars, names and variant indexes",
    "tests go through a handful of derived types",
    ["serde/src/to_value.rs"],
    [dict(name="the serializer over a stream", where="serde/src/to_value.rs")],
    ["serde"],
    ["h_serde_from", "h_serde_from_full", "h_serde_from_big"], ["h_serde_from4"],
    bounds="all 29 kinds of the data model; trees of up to 3 nodes (thorough: 4) with up to 2 children; scalars of any value, "
           "chars of any code point, text and bytes up to 2 bytes; strings and bytes of 1100, names of 260, 300 elements, 260 levels",
)
prop(
    "S02", "Any sval value serializes through serde as the equivalent, or fails",
    "ToSerialize (owned or borrowed) and sval_serde::serialize make exactly the serializer calls of the equivalent serde "
    "value, however the value is nested, split into fragments or buffered: scalars keep their type, text is a string, "
    "binary is bytes, options and units are serde's own, labeled tags are unit structs, labeled tagged values are newtypes, "
    "labeled records are structs (unlabeled ones tuples), and enums are variants with their name, index and label. Values "
    "serde has no shape for (labels that aren't static, missing labels, lengths or 32 bit variant indexes, enums within "
    "enums) are errors, never something else.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds, with symbolic scalars, labels and variant indexes",
    "tests go through a handful of derived types; buffering and the error cases depend on shape",
    ["serde/src/to_serialize.rs", "nested/src/flat.rs"],
    [dict(name="the nested stream over a serializer", where="serde/src/to_serialize.rs")],
    ["serde"],
    ["h_serde_into_leaf", "h_serde_into_full", "h_serde_into_full2", "h_serde_into", "h_serde_into_all", "h_serde_into_enum", "h_serde_into_special", "h_serde_into_deep",
     "h_serde_into_wide", "h_serde_into_long", "h_serde_into_big"], ["h_serde_into_deep_leaf"],
    reach={"h_serde_into": [1, 2], "h_serde_into_all": [1, 2], "h_serde_into_enum": [1, 2], "h_serde_into_special": [1, 2]},
    bounds="trees of up to 3 nodes with labels, 5 without, all 19 kinds up to 2 nodes; indexes of any 64 bit value; 300 entries, "
           "70 levels, text of 1100 bytes",
)
prop(
    "S03", "serde to sval and back is the identity, and errors surface both ways",
    "Serializing a ToSerialize of a ToValue of any serde value makes the same serializer calls as serializing it "
    "directly (chars and collected strings become strings). When the serializer or stream fails at any call, or the value "
    "fails anywhere inside, the bridge fails too and nothing is called again.",
    ["inputs", "fault_sequences"],
    "every tree of serde data model calls up to the bounds; a failure at every call; failing values in 12 places",
    "tests don't compose the two bridges, and only use serializers that never fail",
    ["serde/src/to_value.rs", "serde/src/to_serialize.rs"],
    [dict(name="both bridges", where="serde/src/to_serialize.rs")],
    ["serde"],
    ["h_serde_back", "h_serde_back_full", "h_serde_back_big", "h_serde_into_fault", "h_serde_broken", "h_serde_from_fault", "h_serde_into_fault_full", "h_serde_into_fault_big",
     "h_serde_into_broken", "h_serde_from_fault_full"],
    ["h_serde_back4"],
    reach={"h_serde_into_fault": [1, 2], "h_serde_from_fault": [1, 2]},
    bounds="trees of up to 3 nodes (thorough: 4), 2 in the failure cases; the first 12 calls fail; every kind of value in 14 places failing at the first 24 calls; there and back: strings of 1100 bytes, 300 elements, 70 levels",
)

# ---------------------------------------------------------------- dynamic, ref, derive

prop(
    "D01", "Erased values and streams behave exactly like the ones they erase",
    "Streaming through dyn sval_dynamic::Value, dyn sval_dynamic::Stream (also Send and Sync, boxed, erased twice) or "
    "both makes exactly the calls of the value on the stream: the same methods in order with the same arguments, "
    "borrowed text and binary still borrowed, tags, labels, indexes and size hints intact. The tag and all conversions "
    "of an erased value are the value's own. Errors of the value or of the stream come back and nothing is streamed "
    "after one.",
    ["inputs", "programs", "fault_sequences"],
    "every tree of stream calls up to the bounds through each of 12 ways to erase; every answer of every conversion; "
    "every position of a failing call",
    "each of ~60 forwarding methods has three copies; a test would need to call each with distinguishable arguments",
    ["dynamic/src/stream.rs", "dynamic/src/value.rs"],
    [dict(name="dispatch traits and their forwarding impls", where="dynamic/src/stream.rs, dynamic/src/value.rs")],
    ["dynamic"],
    ["h_dyn_leaf", "h_dyn_full", "h_dyn_size", "h_dyn_huge", "h_dyn_all", "h_dyn_hdr", "h_dyn_hints", "h_dyn_main", "h_dyn_least", "h_dyn_fault", "h_dyn_broken", "h_dyn_casts",
     "h_dyn_casts_default", "h_dyn_big", "h_dyn_fault_full", "h_dyn_fault_big", "h_dyn_broken_full"],
    ["h_dyn_all3"],
    reach={"h_dyn_fault": [1, 2]},
    bounds="trees of up to 2 nodes of all 19 kinds, all header, hint and value-tag combinations, 3 nodes of the main kinds "
           "(thorough: 3 nodes of all kinds); 300 entries, 260 levels, text of 1100 bytes; any 64-bit size hint; the first 8 or 40 calls and six far ones fail",
)
prop(
    "R01", "A value behind an internal reference streams as the value it refers to",
    "stream_ref of a Ref, and of references, boxes, slices, vectors, arrays and tuples (up to 16) of them, makes exactly "
    "the calls that streaming the referenced values makes, for the lifetime of the reference, and so does their stream. "
    "The tag and all conversions of a Ref are the value's own. Errors come back and nothing is streamed after one.",
    ["inputs", "programs", "fault_sequences"],
    "every tree of stream calls up to the bounds in each wrapper and container; every position of a failing call",
    "tests stream three containers of integers",
    ["ref/src/lib.rs", "ref/src/seq.rs"],
    [dict(name="Ref and the ValueRef impls", where="ref/src/lib.rs, ref/src/seq.rs")],
    ["ref"],
    ["h_ref_leaf", "h_ref_full", "h_ref_size", "h_ref_huge", "h_ref_all", "h_ref_main", "h_ref_seq", "h_ref_fault", "h_ref_long", "h_ref_tuple", "h_ref_broken", "h_ref_casts", "h_ref_big", "h_ref_fault_full"], [],
    reach={"h_ref_fault": [1, 2]},
    bounds="trees of up to 2 nodes of all 19 kinds, 3 nodes of the main kinds; containers of up to 3 such values, or 40 "
           "bytes; values of 300 entries, 260 levels or 1100 bytes; all tuple arities; the first 12 calls fail",
)
prop(
    "T01", "Test tokens are exactly the calls a value makes",
    "Recording a value in sval_test's TokenBuf yields one token per stream call, in order, that carries the method and "
    "all of its arguments: values at full width, borrowed and computed fragments apart, size hints, tags, labels with "
    "their tags and indexes with theirs. Token lists are equal exactly when the calls are. assert_tokens accepts the tokens "
    "of the value, assert_valid every value that streams, and assert_invalid every value that fails.",
    ["inputs", "programs"],
    "every tree of stream calls up to the bounds; every pair of 36 leaves, and of 16 values with full headers",
    "the test utilities are what the tests themselves rest on",
    ["test/src/lib.rs"],
    [dict(name="TokenBuf", where="test/src/lib.rs"), dict(name="assert_tokens, assert_valid, assert_invalid", where="test/src/lib.rs")],
    ["test"],
    ["h_test_all", "h_test_main", "h_test_full", "h_test_leaf", "h_test_apart", "h_test_apart_full", "h_test_validity", "h_test_big"], [],
    reach={"h_test_apart": [1, 2], "h_test_apart_full": [1, 2]},
    bounds="trees of up to 2 nodes of all 19 kinds with all headers, 3 nodes without headers; 36 leaves in 13 places, 16 "
           "values with full headers in 14 places; equality of pairs of these; 300 entries, 260 levels, 1100 bytes; NaN payloads are exempt from equality; that "
           "the assertions panic on a mismatch is checked only as the equality they rest on",
)
prop(
    "X01", "Reading back a JSON document streams exactly the value it denotes",
    "from_slice of any well-formed document of the supported subset (objects, arrays, strings with the escapes \\n, \\r, "
    "\\\" and \\\\, numbers with a lower-case exponent, true, false, null, whitespace between tokens) streams one well-formed "
    "value: arrays as sequences and objects as maps with all entries in order, strings as their unescaped text, and numbers "
    "as text tagged as a number. Writing that value with sval_json gives the document back when it has no whitespace. A "
    "document that stops inside of a container is an error, and an error of the stream stops it.",
    ["inputs", "programs", "fault_sequences"],
    "every document up to the bounds, with symbolic string content, digits and whitespace",
    "the only test is one flat struct",
    ["experiments/src/json/from_slice.rs"],
    [dict(name="JsonSliceReader; Stack", where="experiments/src/json/from_slice.rs")],
    ["exp"],
    ["h_exp_tree", "h_exp_rich", "h_exp_ws", "h_exp_ws_rich", "h_exp_ws_all", "h_exp_deep", "h_exp_big", "h_exp_fault", "h_exp_cut"], ["h_exp_tree6"],
    reach={"h_exp_fault": [1, 2]},
    bounds="documents of up to 5 (thorough 6) values with keys and strings of up to 1 character and digits; 2 values with "
           "strings of up to 3 characters or escapes, numbers with sign, fraction and exponent, and literals; one "
           "whitespace character at any of 9 places, or some before every token; nesting of up to 8 levels, 60 in 6 "
           "patterns; strings of up to 1030 and numbers of 140 characters, 260 elements; a failure at any of 12 calls; documents "
           "outside of the subset (the reader has todo!() there) and strings cut short are exempt",
)
prop(
    "V01", "Derived values stream exactly as their declaration says",
    "A type that derives Value streams its fields, each exactly once, in declaration order and with their values, in the "
    "shape the documentation gives: named fields a record tuple, unlabeled ones a tuple, unindexed ones a record, neither "
    "a sequence; newtypes a tagged value, or transparently their field; unit structs a tag; enums their variant inside an "
    "enum, or the variant alone when dynamic. Tags, labels (explicit or the identifier, without r#), indexes (explicit, "
    "from discriminants, or counting on from the one before), data tags, skipped and flattened fields are as declared, no "
    "two default indexes collide with earlier ones, and the size hint is the number of entries. tag() is the tag that is "
    "streamed. Errors of fields or of the stream come back and nothing is streamed after one.",
    ["inputs", "programs", "fault_sequences"],
    "every value of each of some 240 generated types covering the attributes and their combinations; every position of a "
    "failing call",
    "tests derive about forty types and stream one value each; attributes interact",
    ["derive_macros/src/stream/stream_record_tuple.rs", "derive_macros/src/stream/stream_newtype.rs",
     "derive_macros/src/stream/stream_tag.rs", "derive_macros/src/derive/derive_enum.rs",
     "derive_macros/src/derive/derive_struct.rs", "derive_macros/src/derive/derive_newtype.rs",
     "derive_macros/src/derive/derive_unit_struct.rs", "derive_macros/src/index.rs", "derive_macros/src/label.rs",
     "derive_macros/src/attr.rs"],
    [dict(name="generated stream implementations", where="derive_macros/src/stream/*.rs"),
     dict(name="index allocation", where="derive_macros/src/index.rs")],
    ["derive"],
    ["h_derive_structs", "h_derive_scalars", "h_derive_enums", "h_derive_flats", "h_derive_flat_enums", "h_derive_larges", "h_derive_edges",
     "h_derive_fault", "h_derive_generic", "h_derive_broken"], [],
    reach={"h_derive_fault": [1, 2]},
    bounds="a fixed family of 335 types: structs of up to 4 fields (plain ones up to 70), enums of up to 5 variants (plain ones up to 40), indexes and discriminants at the edges of all widths, attribute combinations drawn with "
           "a fixed seed; the field values are symbolic; the first 16 calls fail",
    assumptions=["types outside the family are not covered: the macro runs at compile time and its expansion is what is "
                 "executed symbolically",
                 "a default index after an index given as a path is not claimed (the macro cannot know the path's value)"],
)
