#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept here because JSON lines are unreadable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text),
                  why_tests_cant=" ".join(why.split()), anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])))
R = "crates/planus/src/"

p("C01", "Reading untrusted bytes never panics, loops or leaves the buffer",
  """Opening any byte sequence as the root of any generated table type, and reading any field of any table, struct,
  union, vector or string reached from it, only ever touches bytes inside of the given slice and returns a value or an
  error. It never panics, and it never depends on the contents having been validated before. This includes slices that
  are empty, truncated, unaligned or deliberately hostile.""",
  ["inputs"], "every byte sequence of every length, every table position and vtable in it, every field of the generated types",
  """The tests read buffers that planus or flatc wrote, plus a few fuzz corpora; memory safety of the unsafe reads and
  the absence of overflow must hold for all 2^(8n) inputs.""",
  [R+"slice_helpers.rs", R+"table_reader.rs", R+"impls/", R+"vectors/vector.rs", R+"union_vectors/union_vector.rs", "crates/planus-codegen/src/rust/"],
  [("bounds-checked cursor over the buffer", R+"slice_helpers.rs"), ("vtable validation on open", R+"table_reader.rs"), ("generated accessors", "crates/planus-codegen/src/templates/rust/")])
p("C02", "Table fields decode exactly as the FlatBuffers format defines",
  """A table opens exactly if its header is well formed: the vtable it points back (or forward) to starts inside of the
  buffer, has an even size of at least four bytes and ends inside of the buffer. A field is absent exactly if its vtable
  entry is missing or zero, and otherwise is read at that entry's distance from the table, with scalars little endian and
  strings and vectors found through their relative offset and length prefix. Errors are returned exactly for what does not
  fit into the buffer, for missing required fields and for half-present unions, and name the position of the table.""",
  ["inputs"], "every buffer of every length, every table position, every field number, every scalar and vector type",
  """Tests compare a handful of buffers; the decoding rules (truncated vtables, odd sizes, entries behind the end, negative
  vtable distances) must be right for each of them.""",
  [R+"table_reader.rs", R+"slice_helpers.rs", R+"impls/primitives.rs", R+"impls/bool_.rs", R+"impls/byte_slice.rs", R+"vectors/vector.rs", R+"union_vectors/union_vector.rs"],
  [("Table::from_buffer / access*", R+"table_reader.rs"), ("SliceWithStartOffset::advance*", R+"slice_helpers.rs")])
p("C03", "Vectors read from a buffer index and slice like Rust slices",
  """For vectors and union vectors, `get`, `get_unchecked` with every kind of index and range, `first`, `last`, the
  `split` functions, `len` and `is_empty` return what the same call on a slice of the elements returns, and None exactly
  where the slice returns None, including ranges with overflowing or reversed bounds. Collecting a vector yields its
  elements in order or the error of an element that cannot be converted.""",
  ["inputs"], "every vector in every buffer, every index and pair of bounds (collecting: vectors of up to three elements)",
  """Unit tests index a few small vectors with small numbers; overflow at usize::MAX and wrong offsets in later elements
  only show on particular combinations of length, bounds and stride.""",
  [R+"vectors/vector.rs", R+"union_vectors/union_vector.rs"],
  [("VectorIndex implementations", R+"vectors/vector.rs"), ("UnionVectorIndex implementations", R+"union_vectors/union_vector.rs")])
p("C04", "Vector iterators behave like the iterators of a slice",
  """The iterators of vectors and union vectors (`iter`, `windows`, `chunks`, `chunks_exact`, `rchunks`, `rchunks_exact`)
  yield the items the slice iterator of the same name yields, from both ends, for `next`, `next_back`, `nth`, `nth_back`
  and `last`, with the same length, size hint, count and remainder. This holds after any sequence of steps from either
  end and for skips beyond the end.""",
  ["inputs", "histories"], "vectors of any length for iter, windows and the first chunk; all vectors of up to nine elements, all chunk sizes and two arbitrary steps for the chunk iterators",
  """Tests iterate forward over a few vectors; double-ended stepping with skips has a state space that sampling does not cover.""",
  [R+"vectors/iterators.rs", R+"union_vectors/iterators.rs"],
  [("iterator implementations", R+"vectors/iterators.rs"), ("iterator implementations", R+"union_vectors/iterators.rs")])
p("C05", "What was written to a builder's buffer is never changed by later writes",
  """Writing to the front of the buffer of a builder leaves every byte written before in place at the same distance from
  the end, and puts exactly the given bytes in front of them, through every growth and reallocation. Clearing it leaves
  it empty with its allocation usable, and its length is always the number of bytes written since.""",
  ["histories", "inputs"], "every state (capacity, fill level, contents) and every write; growth for all capacities",
  """The unsafe front-growing buffer reallocates and moves its contents; tests cover few sizes and no capacity edge cases.""",
  [R+"backvec.rs"], [("BackVec", R+"backvec.rs")])
p("C06", "Everything a builder writes is aligned in the finished buffer",
  """Every scalar, struct, table, offset, vector length prefix and vector element written lies at a multiple of its
  required alignment counted from the start of the finished buffer, no matter what was written before or after it and in
  which order, and no matter with which root and file identifier the buffer is finished.""",
  ["histories", "inputs"], "every earlier history of writes (any position, any pending promise, any alignment up to 16), every object kind",
  """Misalignment depends on the accumulated length modulo the alignment and on the pending delayed bytes, which tests
  only meet by chance.""",
  [R+"builder.rs", R+"table_writer.rs", R+"impls/slice.rs", R+"impls/array.rs", R+"impls/str.rs"],
  [("Builder::prepare_write / write_with", R+"builder.rs"), ("TableWriter::finish", R+"table_writer.rs")])
p("C07", "Every field written to a table is read back, and no others",
  """A table that is written with any subset of its fields, in any declaration order, is read back with exactly these
  fields and values, and all its other fields are absent. Its fields do not overlap, lie inside of the table, and its
  vtable is the shortest that covers the last field written.""",
  ["inputs", "histories"], "every subset of fields, all values, every earlier history of the builder",
  """The tests write a few tables in a fresh builder; layout mistakes depend on the subset of the fields, their sizes and
  the position in the buffer.""",
  [R+"table_writer.rs", R+"builder.rs", R+"table_reader.rs"],
  [("TableWriter", R+"table_writer.rs"), ("Builder::write_vtable / write_table", R+"builder.rs")])
p("C08", "Vectors, strings, structs, unions and offsets are read back as written",
  """Every vector (of scalars, booleans, enums, structs, strings, tables or unions), string, struct, union and offset that
  is written through the builder is read back with the same length and the same elements in the same order, wherever in
  the buffer it was put. Optional values that are absent are read back as absent.""",
  ["inputs", "histories"], "all values of up to the stated lengths, every earlier history of the builder",
  """Relative offsets depend on the position in the buffer and padding; round-trip tests sample few histories.""",
  [R+"impls/", R+"builder.rs"], [("WriteAsOffset for slices, arrays, strings", R+"impls/slice.rs"), ("UnionVectorOffset", R+"impls/union_vector_offset.rs")])
p("C09", "Deduplicating caches never change what is read from a buffer",
  """Writing equal strings, byte slices, vectors or vtables repeatedly through the builder's caches yields offsets whose
  contents are equal to the value asked for, exactly as without a cache, whatever else was written in between. In
  particular two different values never share an offset, including values where one is a prefix of another and values
  with colliding hashes.""",
  ["histories", "inputs"], "every hash function, cache contents and order of writes within the stated sizes",
  """Hash collisions and prefix relations between cached values practically never occur in tests.""",
  [R+"builder_cache.rs", R+"builder.rs"], [("Cache / ByteCache", R+"builder_cache.rs"), ("Builder::create_string caches", R+"builder.rs")])
p("C10", "A cleared builder produces the same bytes as a new one",
  """After `clear`, a builder writes exactly the bytes a new builder writes for the same calls, whatever it was used for
  before. Nothing of the earlier message, of its cached offsets or of its alignment state is left.""",
  ["histories"], "every earlier history within the stated sizes",
  """Only the combination of an earlier history with a later one shows a stale cache or promise; tests reuse builders for
  the same message.""",
  [R+"builder.rs", R+"builder_cache.rs", R+"backvec.rs"], [("Builder::clear", R+"builder.rs"), ("Cache::clear", R+"builder_cache.rs")])
p("C11", "A finished buffer starts with the root offset and the file identifier",
  """Finishing a builder puts the relative offset of the root object into the first four bytes and, if a file identifier
  is given, exactly this identifier into the four bytes behind it. The root is found through that offset with the bytes
  it was written with, whatever was written before and however the buffer is aligned.""",
  ["inputs", "histories"], "every earlier history of writes, every root position, every identifier",
  """The position of the identifier depends on the alignment padding, which varies with everything written before.""",
  [R+"builder.rs"], [("Builder::finish", R+"builder.rs")])
p("C12", "An array initialised through cursors is filled exactly once, in order",
  """Writing values through a cursor over an uninitialised array, split and subdivided in any way, puts the i-th value at
  the i-th position, leaves no position uninitialised and none written twice, and never drops a value that was written.
  The parts of a split cursor cover the array exactly and do not overlap. A cursor that goes out of scope with positions
  left panics instead of passing an uninitialised array on.""",
  ["inputs", "programs"], "all values, every length of the arrays from 0 to 8 and every way to split them",
  """Tests initialise arrays of one, two and four elements; aliasing between the parts and uninitialised positions depend
  on where the array is split.""",
  ["crates/array-init-cursor/src/lib.rs", "crates/array-init-cursor/src/util.rs"], [("Cursor", "crates/array-init-cursor/src/lib.rs"), ("split_mut", "crates/array-init-cursor/src/util.rs")])
p("C13", "Generated readers read the field, type and default the schema declares",
  """For every field of every table and struct of a schema, the generated accessor reads the vtable slot, struct offset,
  type and default value the schema declares: an absent scalar yields its default, an absent optional or offset field
  yields None, an absent required field is an error. Enum values and union members map to exactly the tags and types the
  schema gives them, and unknown ones are errors.""",
  ["inputs", "programs"], "every buffer, for every field of the schemas of the corpus (all field kinds the language has)",
  """Generated code is compared with snapshots of itself; that it decodes every table as the schema says is not tested.""",
  ["crates/planus-codegen/src/", "crates/planus-translation/src/intermediate_language/translation.rs"],
  [("Rust backend", "crates/planus-codegen/src/rust/mod.rs"), ("templates", "crates/planus-codegen/src/templates/rust/")])
p("C14", "What generated builders write is what generated readers read",
  """For every table, struct, enum and union of a schema, writing a value with the generated builder functions or types
  and reading it back with the generated reader yields the same value, with fields equal to their default omitted and
  deprecated fields never written. Which fields are written does not depend on what was written before.""",
  ["inputs", "programs", "histories"], "all field values, for the tables of the corpus, with every earlier history of the builder",
  """Round-trip tests use a few values; a wrong default comparison or slot in generated code shows on particular values only.""",
  ["crates/planus-codegen/src/", R+"table_writer.rs"],
  [("Rust backend", "crates/planus-codegen/src/rust/mod.rs"), ("templates", "crates/planus-codegen/src/templates/rust/")])
p("C15", "Literals and enum values in schemas mean the number they denote",
  """An integer or float literal of a schema is translated to the number it denotes, with its sign, if it fits the type it
  is used for, and is rejected with an error otherwise. An enum member without a value gets its predecessor's value plus
  one (zero for the first), and members that do not fit the enum's type or repeat a value are rejected.""",
  ["inputs"], "all literals, all ten integer types, all pairs of neighbouring enum values",
  """Tests have a few literals per type; range edges and sign handling must be right for each type and value.""",
  ["crates/planus-translation/src/intermediate_language/translation.rs", "crates/planus-translation/src/ast_convert.rs"],
  [("translate_integer / translate_float", "crates/planus-translation/src/intermediate_language/translation.rs"), ("translate_enum", "crates/planus-translation/src/intermediate_language/translation.rs")])
p("C16", "Struct layout follows the FlatBuffers rules",
  """Every field of a struct is put at the first offset behind its predecessor that is a multiple of the field's
  alignment, the struct's alignment is the largest of its fields' and of its force_align, and its size is the end of its
  last field rounded up to the alignment. Padding is accounted for exactly, and a force_align that is not a power of two
  or is too small is rejected.""",
  ["inputs"], "all sequences of field types within the stated length",
  """A layout error only shows on particular sequences of sizes and alignments.""",
  ["crates/planus-translation/src/intermediate_language/translation.rs"],
  [("resolve_struct_sizes / translate_struct", "crates/planus-translation/src/intermediate_language/translation.rs")])
p("C17", "Table fields get the vtable slots the schema gives them",
  """Fields without ids are numbered in order of declaration, with two slots for unions; with ids every field gets its id
  (a union the one before it, too). Duplicate, missing or too large ids, and ids on only some of the fields, are
  rejected.""",
  ["inputs"], "all assignments of ids and kinds to the fields of tables within the stated size",
  """Wire compatibility depends on it; the tests have a handful of tables with ids.""",
  ["crates/planus-translation/src/intermediate_language/translation.rs"],
  [("translate_table", "crates/planus-translation/src/intermediate_language/translation.rs")])
p("C18", "The compiler's sorted maps and sets hold exactly what was inserted",
  """A sorted map or set used by the schema compiler contains exactly the keys inserted, each once, in order and with the
  last value, for every order of insertion, and looks up exactly these. First and last lookups of ranges return what a
  sorted list of the entries gives.""",
  ["histories", "inputs"], "all insertion orders of up to the stated number of keys",
  """Binary search mistakes show only for particular insertion orders.""",
  ["crates/planus-translation/src/util/sorted_map.rs"], [("SortedMap / SortedSet", "crates/planus-translation/src/util/sorted_map.rs")])
p("C19", "Schemas are tokenised and pretty-printed without loss",
  """Every character of a schema belongs to exactly one token, comments and whitespace included, and formatting a schema
  yields one that parses to the same declarations. Formatting twice changes nothing.""",
  ["inputs"], "all schema texts",
  """The space of schema texts is unbounded; snapshot tests cover a handful.""",
  ["crates/planus-lexer/src/", "crates/planus-translation/src/pretty_print.rs"], [("lexers", "crates/planus-lexer/src/"), ("pretty printer", "crates/planus-translation/src/pretty_print.rs")])
p("C20", "The buffer inspector shows what the reader would read",
  """The objects the inspector finds in a buffer, and the byte ranges it gives them, are those the generated reader reads
  for the same schema, and malformed buffers are reported instead of failing.""",
  ["inputs", "programs"], "all buffers and schemas",
  """The tests inspect one file.""",
  ["crates/planus-buffer-inspection/src/"], [("object decoding", "crates/planus-buffer-inspection/src/")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
