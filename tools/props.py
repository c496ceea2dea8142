"""The properties, and what is claimed about each."""
NY = "No static check has been built for this yet."
TRUST = ("Sound for the inputs and sizes the witness entries quantify over, up to the trusted base: clang's IR generation, the analyser "
         "(engine/), malloc never failing, x86-64 little-endian layout. ")
PROPS = [
 dict(id="M01", title="Integer helpers compute the exact mathematical result or crash",
  statement="Integer comparisons across signedness and width, range tests, minimum and maximum, powers of two, bit widths, bit counts and saturating shifts return the mathematically exact result for every argument of every integer type. Where the exact result is not representable, the helper crashes or returns none exactly as documented, never a wrapped value.",
  quant="all argument values of all instantiated integer types, including mixed signedness",
  why="The tests sample a handful of constants per helper; overflow and signedness edges of the narrow types are not reached.",
  files=["best/math/int.h", "best/math/bit.h"],
  mech=[("saturating and ceiling operations", "best/math/int.h"), ("power-of-two and bit operations", "best/math/bit.h")],
  note=TRUST + "All argument values of every listed instantiation are covered without bounds."),
 dict(id="M02", title="overflow<I> flags exactly the operations whose exact result does not fit",
  statement="An overflow-tracking integer carries the two's complement result of each arithmetic operation, and its flag is set if and only if the exact result of some operation in its history did not fit the type or was undefined. The checked accessors return the value only when the flag is clear; saturating arithmetic clamps to the bound on the side of the exact result, and rounding-up and plain division return the exact quotient or crash on a zero divisor. It equals an integer exactly if it has that value and a clear flag.",
  quant="all operand values of all instantiated integer types and all operators",
  why="Tests try a few values for int; the flag must be exact for all operands of all widths.",
  files=["best/math/overflow.h"], mech=[("operators, converting constructor", "best/math/overflow.h")],
  note=TRUST + "All operand values of every listed instantiation are covered without bounds."),
 dict(id="M03", title="Number parsing accepts exactly the in-range numerals and returns their value",
  statement="Parsing text as an integer in a radix succeeds if and only if the text is an optional sign followed by one or more digits of that radix denoting a value representable in the target type. On success the result is exactly that value; on failure an error is returned and nothing crashes.",
  quant="all strings up to the entry's length bound, all listed radixes and integer types",
  why="The fast paths for short text, negative numbers, sign prefixes and overflow detection interact per type and length; tests sample a few strings.",
  files=["best/math/conv.h", "best/text/rune.h"],
  mech=[("atoi, atoi_with_sign, atoi_with_prefix", "best/math/conv.h"), ("digit decoding", "best/text/rune.h")],
  note=TRUST + "Bounded: all ASCII texts up to 3 bytes, and all signed digit strings up to two digits beyond the type's widest value, for the listed types and radixes."),
 dict(id="B01", title="Checked access designates exactly the requested elements or fails",
  statement="Indexing or slicing a span, array view or vector by an index or by any form of bounds (start with end, inclusive end, count, or none) designates exactly the requested in-range elements. A request that is not entirely within the sequence crashes in the subscript form and yields none in the optional form, for every length and every bounds value, including those whose arithmetic would wrap.",
  quant="all lengths up to 2^40 elements, all 64-bit starts, ends and counts in every form",
  why="Tests slice small arrays with small constants; wrap-around of start+count, inclusive ends and the largest values is not reached.",
  files=["best/iter/bounds.h", "best/iter/bounds.cc", "best/memory/span.h", "best/container/vec.h"],
  mech=[("bounds normalisation", "best/iter/bounds.h"), ("span subscript, at, split_at, take, first/last", "best/memory/span.h"), ("vec forwarding", "best/container/vec.h")],
  note=TRUST + "Unbounded in lengths (to 2^40), indices and bounds values for spans; vectors up to 4 elements with unbounded indices."),
 dict(id="S01", title="Searching, splitting, stripping and comparing spans match their definitions",
  statement="Finding a sub-sequence, element or predicate in a span returns the first (or last) position at which it occurs, and none exactly when it does not occur. Splitting, prefix and suffix tests and stripping, equality, lexicographic order and binary search agree with their element-wise definitions, for byte-wide, multi-byte and user-defined element types, on the paths taken at run time and on those taken in constant evaluation.",
  quant="all contents of spans of up to 5 elements and needles of up to 3, for five element types",
  why="Byte-wise fast paths give wrong answers only for particular multi-byte patterns that sampled tests do not contain.",
  files=["best/memory/span.h", "best/memory/internal/bytes.h"],
  mech=[("byte search fast path", "best/memory/internal/bytes.h"), ("generic search, split, bisect", "best/memory/span.h")],
  note=TRUST + "Bounded: spans of up to 5 elements (2 for 4-byte searches), needles of up to 3, all contents; empty needles only for find."),
 dict(id="P01", title="Pointer operations move, copy and destroy objects exactly once",
  statement="Copying, moving, relocating, assigning, shifting and destroying ranges of objects through best::ptr delivers each element to its place exactly once, also when the ranges overlap in the operations that permit it. No object is constructed over a live one, used after its end, destroyed twice or left behind, whether it is relocated bytewise or element by element; arithmetic, comparison, casts and upcasts denote the same addresses as raw pointers.",
  quant="all ranges and overlaps within buffers of up to 6 elements; plain, address-sensitive and heap-owning element types; all contents",
  why="Lifetime errors on overlapping ranges of non-trivial types do not change the values a test compares, or need overlaps a test does not sample.",
  files=["best/memory/ptr.h", "best/memory/internal/ptr.h"],
  mech=[("copy_impl, relo_overlapping, arithmetic", "best/memory/ptr.h"), ("per-type construct/copy/destroy", "best/memory/internal/ptr.h")],
  note=TRUST + "Bounded: buffers of up to 6 elements, all overlaps, all contents."),
 dict(id="V01", title="A vec holds exactly the sequence its operations describe",
  statement="After any vec operation (push, insert, append, splice, splice from within, pop, remove, erase, truncate, clear, assign, copy, move, conversion to a box, reserving, spilling or shrinking), its length and elements are those of the corresponding plain sequence, the sources of copies are unchanged, and the vec remains usable. This holds inline and on the heap, for every inline capacity and for trivial, address-sensitive and heap-owning element types; every element is alive exactly while it is in the sequence.",
  quant="all states with up to 6 elements (inline, exact heap, spare heap), all positions, counts and contents",
  why="Each operation has separate inline, heap, trivial and non-trivial paths, and self-splicing has position-dependent ones; tests exercise a few combinations.",
  files=["best/container/vec.h", "best/memory/ptr.h", "best/memory/span.h"],
  mech=[("vec operations", "best/container/vec.h"), ("shift_within", "best/memory/span.h")], over=["inputs", "histories"],
  note=TRUST + "Bounded: vecs of up to 6 elements, one operation from every such state plus follow-up pushes; arguments other than to splice and self-assignment do not alias the vec."),
 dict(id="V02", title="A vec returns every block to its allocator with the layout it asked for",
  statement="Every block a vec allocates is returned exactly once, with the size and alignment it was requested with, to an allocator equal to the one that made it; copying a vec copies its allocator and moving it takes the allocator along with the storage. Elements keep their alignment when storage grows, and no operation leaks a block or an element.",
  quant="all pairs of states with up to 2 elements, equal or different allocators, all histories of three operations",
  why="Tests use the global allocator, where a block returned to the wrong allocator or with the wrong layout goes unnoticed.",
  files=["best/container/vec.h", "best/memory/allocator.h", "best/memory/allocator.cc"],
  mech=[("spill_to_heap, move_construct, destroy", "best/container/vec.h"), ("malloc::realloc", "best/memory/allocator.cc")], over=["inputs", "histories"],
  note=TRUST + "Bounded: two vecs of up to 2 elements (up to 12 by appending), histories of 3 operations from the empty vec."),
 dict(id="V03", title="Out-of-range vec operations crash before touching memory",
  statement="Indexing, inserting, removing, erasing, splicing or setting the size outside a vec's length or capacity crashes before any memory outside the vec is read or written, for every 64-bit index and count, and reserving an unrepresentable number of elements crashes. The optional accessors return none exactly for those requests, and truncating beyond the length changes nothing.",
  quant="all 64-bit indices and counts on vecs of up to 3 elements in every storage state",
  why="Tests check one or two out-of-range constants; wrap-around and off-by-one at the boundaries are not reached.",
  files=["best/container/vec.h", "best/memory/span.h", "best/memory/layout.h"],
  mech=[("bounds checks", "best/container/vec.h"), ("array size limit", "best/memory/layout.h")],
  note=TRUST + "Unbounded in indices and counts; vecs of up to 3 elements."),
 dict(id="O01", title="An option is either empty or holds exactly the value put into it",
  statement="Every option operation (construction, assignment from values, options, references or none, emplace, reset, copy, move, map, then, filter, value_or, ok_or, err_or, the & | ^ combinators and comparison) yields an option that is empty or holds the value its definition says, calls callbacks exactly once and only on a value (an lvalue or rvalue, const or not, as the option is), and leaves operands passed as lvalues unchanged. The value is alive exactly while the option holds it, also when emptiness is encoded in a niche of the type; options of references rebind and refer to the same object; dereferencing an empty option crashes.",
  quant="all pairs of states (empty, once-filled, filled) and all contents, for trivial, address-sensitive, niche, heap-owning, reference and void element types",
  why="The niche and tagged representations, trivial and non-trivial types, lvalue and rvalue overloads are separate code for every operation; tests touch a few with constants.",
  files=["best/container/option.h", "best/container/choice.h", "best/container/internal/choice.h", "best/container/object.h"],
  mech=[("option operations", "best/container/option.h"), ("tagged and niched storage, emplace", "best/container/internal/choice.h"), ("ok_or, err_or", "best/container/option.h")], over=["inputs", "histories"],
  note=TRUST + "Contents unbounded; one operation from every state of one or two options, for the listed element types."),
 dict(id="C01", title="A choice holds one alternative, and only that one is read or destroyed",
  statement="A choice always holds exactly the alternative last put in it. Every accessor, match, index_match, permute, comparison, copy, move and assignment sees that alternative and its value and no other, callbacks getting it as an lvalue or rvalue, const or not, as the choice is; asking for another one crashes in the subscript form and yields none or null in the others. Replacing or destroying a choice destroys the held value exactly once and never the referent of a reference alternative; self-assignment changes nothing; choices order by alternative index, then by value.",
  quant="all alternatives and contents, over twelve lists of trivial, address-sensitive, niche, heap-owning, non-assignable, reference and void types",
  why="Each list picks its own storage (one type, niche, two, more), dispatch (none, switch, jump table) and triviality; the tests use a few lists and constants.",
  files=["best/container/choice.h", "best/container/internal/choice.h", "best/container/internal/pun.h", "best/container/pun.h", "best/container/object.h"],
  mech=[("tagged and niched storage, emplace, destructor, jump table", "best/container/internal/choice.h"), ("accessors, permute, comparison", "best/container/choice.h"), ("raw union", "best/container/internal/pun.h")], over=["inputs", "histories"],
  note=TRUST + "Contents unbounded; one operation (or two) from every state of one or two choices, for the listed alternative lists."),
 dict(id="R01", title="A result is ok or err and carries exactly the value put into it",
  statement="A result is either ok or an error and holds exactly the value it was made from; copies, moves, assignments, conversions between result types, map, map_err, then and the guard macro carry that value to the side their definition says, call callbacks exactly once and only on the matching side (with the value category of the result), and leave lvalue operands unchanged. Equality and order agree with comparing side, then value (ok before err), whether the other operand is a result, a plain value, ok(...) or err(...). Dereferencing an error crashes.",
  quant="both sides and all contents, for trivial, address-sensitive, niche, heap-owning, reference and void ok and error types",
  why="Each operation exists in lvalue, const and rvalue forms with separate code per side; result has no tests of its own.",
  files=["best/container/result.h", "best/container/choice.h", "best/base/guard.h", "best/text/format.h"],
  mech=[("accessors, map, then, conversions, comparison", "best/container/result.h"), ("BEST_GUARD", "best/base/guard.h"), ("check_ok", "best/text/format.h")], over=["inputs", "histories"],
  note=TRUST + "Contents unbounded; one operation (or two) from every state of one or two results, for the listed types."),
 dict(id="X01", title="A box owns one value in one block for exactly the box's lifetime",
  statement="A box holds the value (or array, with its length) it was made with until it is reassigned; copying makes an equal value in a block of its own from the same allocator, moving hands over the block without touching the value, and leak and into_raw give the block up. Self-assignment changes nothing and a moved-from box can be assigned to again. Every value is destroyed and every block returned exactly once, with its layout, to its allocator.",
  quant="all contents and lengths up to 3, equal or different allocators, for trivial, address-sensitive and heap-owning values and arrays of them",
  why="Tests use the global allocator and equal-sized values, where wrong layouts, wrong allocators and stale lengths go unnoticed.",
  files=["best/container/box.h", "best/memory/ptr.h", "best/memory/internal/ptr.h"],
  mech=[("copy, move, assignment, try_copy, into_raw", "best/container/box.h"), ("construct and copy by pointee kind", "best/memory/internal/ptr.h")], over=["inputs", "histories"],
  note=TRUST + "Bounded: arrays of up to 3 elements; one or two operations from every state of two boxes."),
 dict(id="A01", title="The allocator's blocks are aligned, disjoint and returned with their layout",
  statement="best::malloc returns aligned, non-null blocks that are distinct from every live block, keep what is written to them until returned, are zeroed by zalloc, and keep their common prefix through realloc in both directions. In debug builds, returning or resizing a null or dangling pointer, or a block with a layout other than its own, crashes. Layouts of types, structs, unions and arrays equal the language's size and alignment, and arrays of more than half the address space crash.",
  quant="all contents; alignments 1 to 64 and sizes of 0 to 2 units (7 bytes for alignment 1) before and after resizing; all 64-bit array lengths; structs and unions over seven member types in several positions",
  why="Over-aligned blocks, shrinking, zeroing and mixed member lists take separate paths; the allocator has no tests of its own.",
  files=["best/memory/allocator.cc", "best/memory/allocator.h", "best/memory/layout.h", "best/memory/internal/layout.h"],
  mech=[("alloc, zalloc, realloc, dealloc, cookie check", "best/memory/allocator.cc"), ("of_struct, of_union, array", "best/memory/layout.h"), ("size and alignment computation", "best/memory/internal/layout.h")], over=["inputs", "histories"],
  note=TRUST + "Sizes and alignments enumerated, contents and array lengths unbounded. Handing back an over-aligned block under a less aligned layout is outside the claim: its cookie is looked up in a different place."),
 dict(id="U01", title="A rune is a code point; classes, case and digits follow the standard",
  statement="rune::from_int accepts exactly the Unicode scalar values and from_int_allow_surrogates exactly the code points; a rune keeps its value, a default rune is NUL, and every rune can be held by an option. The ASCII classes, surrogate classes, case mappings and ordering are those of the code point. to_digit/from_digit/is_digit convert exactly the digits of the radix and are inverse; a radix above 36 crashes.",
  quant="all 2^32 integers, all code points, all radices",
  why="Tests sample a few characters; boundaries of each class and radix are not covered.",
  files=["best/text/rune.h"],
  mech=[("from_int, classes, case, digits, niche", "best/text/rune.h")],
  note=TRUST + "Unbounded."),
 dict(id="U02", title="Encoding a rune writes its standard form and decoding gives it back",
  statement="For UTF-8, WTF-8, UTF-16, UTF-32, ASCII and Latin-1: encoding a rune succeeds exactly when the encoding can represent it and it fits, writes exactly the standard code units and nothing else, and advances the output past them; a failed encode advances nothing. decode and undecode give back the encoded rune and consume exactly its code units, whatever surrounds them; a proper prefix or suffix never decodes. size(), validate() and is_boundary() agree, and the encodings declared lexicographic order like their runes.",
  quant="all code points (and pairs of them), all output sizes up to 5, all surrounding code units",
  why="Tests encode and decode six characters per encoding; length-class boundaries, full buffers and surrogates are not covered.",
  files=["best/text/utf8.h", "best/text/utf16.h", "best/text/utf32.h", "best/text/ascii.h", "best/text/rune.h", "best/text/internal/utf.h"],
  mech=[("encode, decode wrappers", "best/text/rune.h"), ("encode8, encode16, decode8, decode16, undecode", "best/text/internal/utf.h"), ("utf8, wtf8", "best/text/utf8.h"), ("ascii, latin1", "best/text/ascii.h")],
  note=TRUST + "Unbounded in runes. WTF-8 is taken as generalised UTF-8: concatenations that form a surrogate pair are not rejected."),
 dict(id="U03", title="Decoding accepts exactly well-formed code units and never reads past them",
  statement="For every sequence of code units, decode succeeds exactly when it starts with a well-formed rune (Unicode table 3-7 for UTF-8) and undecode exactly when it ends in one; they return that rune and consume exactly its units, and on failure consume nothing. No byte outside the input is ever read. validate accepts exactly concatenations of well-formed runes, and is_boundary on valid text holds exactly between runes, for every 64-bit index. Empty input is reported as out of bounds and a full-length ill-formed sequence as invalid.",
  quant="all code-unit sequences of up to 5-6 (UTF-8, WTF-8), 3-4 (UTF-16) or 2-3 (others) units; all 64-bit boundary indices",
  why="Malformed, truncated and overlong input is where decoders read out of bounds or accept garbage; tests have five malformed inputs.",
  files=["best/text/internal/utf.h", "best/text/utf8.h", "best/text/utf16.h", "best/text/utf32.h", "best/text/ascii.h", "best/text/rune.h"],
  mech=[("validate_utf8_fast, decode8_size, decode8, undecode8, decode16", "best/text/internal/utf.h"), ("is_boundary", "best/text/utf8.h"), ("validate, decode and undecode wrappers", "best/text/rune.h")],
  note=TRUST + "Longer than the longest encoded rune, so a single decode is covered fully; validate is bounded by the sequence length."),
 dict(id="T01", title="Text is always well-formed and is only sliced between runes",
  statement="For every sequence of code units and every encoding, text::from and text::from_nul succeed exactly when all of it is well-formed and then refer to exactly those units; from_partial splits the data after its longest well-formed prefix. For every text and all 64-bit indices, is_rune_boundary holds exactly at the start of a rune and at the end; at(), operator[] and split_at() succeed exactly when the range is in bounds and both ends lie between runes, and give exactly that range; operator[] crashes otherwise. A pretext is sliced at any in-bounds code unit and nowhere else. No call reads outside the text.",
  quant="all texts of up to 2-3 runes and all sequences of up to 2-4 code units in UTF-8, WTF-8, UTF-16, UTF-32, ASCII and Latin-1; all 64-bit bounds",
  why="Every text operation after construction decodes without checking; one accepted ill-formed unit or one slice through a rune turns into an out-of-bounds read far away.",
  files=["best/text/str.h", "best/text/rune.h", "best/text/utf8.h", "best/text/utf16.h", "best/text/internal/utf.h"],
  mech=[("text::from, from_partial, operator[], at, split_at", "best/text/str.h"), ("validate, is_boundary", "best/text/rune.h"), ("pretext slicing", "best/text/str.h")],
  note=TRUST + "WTF-8 as in U02. Bounded in the number of runes: slicing looks at the units around both ends only."),
 dict(id="T02", title="Iterating text yields each rune once, in order, from either end",
  statement="For every text, runes() and rune_indices() yield exactly its runes and the code-unit index each starts at, in order, for every interleaving of next() and next_back(); they end after the last rune and stay ended; rest() is what has not been yielded, count() the number of runes, and the size hint bounds what is left. For every code-unit sequence, a pretext's try_runes() yields each well-formed rune and one error per ill-formed code unit, and runes() and rune_indices() yield U+FFFD in place of each error.",
  quant="all texts of up to 2-3 runes and all sequences of up to 3 code units in six encodings, all interleavings of the two ends",
  why="Forward and backward decoders must agree on where each rune is, for every mixture of rune lengths and every point at which the two ends meet.",
  files=["best/text/str.h", "best/text/rune.h", "best/text/internal/utf.h", "best/iter/iter.h"],
  mech=[("rune_iter_impl, rune_index_iter_impl, rune_try_iter_impl", "best/text/str.h"), ("size_hint", "best/text/str.h"), ("decode, undecode", "best/text/rune.h")],
  note=TRUST + "Bounded in length; iterators keep no state but the remaining text and the two indices."),
 dict(id="T03", title="Searching and splitting text agrees with its definition in every encoding",
  statement="For every text or pretext and every pattern (a rune, a string in the same or another encoding, or a predicate on runes), find, rfind and contains report the first and last occurrence and nothing else; split_once and rsplit_once give what is before and after it; split yields the pieces between occurrences in order; starts_with, ends_with, strip_ and consume_prefix/suffix succeed exactly when the text begins or ends with the pattern and remove exactly it. A rune that the text's encoding cannot represent is never found, an empty pattern matches an empty piece, and whatever the pattern (even ill-formed), splitting or stripping a text gives well-formed text. No call reads outside the text or the pattern.",
  quant="all texts of up to 2-3 runes; all runes, all strings of up to 1-2 runes in the same and in five other encoding combinations, all predicates of the form r < c; all ill-formed UTF-8 patterns of up to 2 units",
  why="Search has a code-unit fast path and a rune-by-rune slow path, chosen by encoding, with separate index arithmetic; matches at the ends, after a near miss, across encodings or inside a rune are where they differ.",
  files=["best/text/str.h", "best/memory/span.h", "best/memory/internal/bytes.h", "best/text/encoding.h"],
  mech=[("splits, rsplits", "best/text/str.h"), ("strip_prefix, strip_suffix", "best/text/str.h"), ("split_impl", "best/text/str.h"), ("same_encoding", "best/text/encoding.h")],
  note=TRUST + "Uses that encoding is injective (U02). Bounded in length. split() by an empty string does not terminate and is outside the property."),
 dict(id="T04", title="Comparing text compares its runes, whatever the encodings",
  statement="For all well-formed texts or pretexts in any two encodings, == holds exactly when they consist of the same runes, and <=> and the relational operators order them lexicographically by rune (a proper prefix first); comparing with a rune is comparing with the text of that one rune; a text equals itself and its own code units. Only lexicographic encodings are compared code unit by code unit, and only against the same encoding. No call reads outside either text.",
  quant="all pairs of texts of up to 1-3 runes in six encodings and nine cross-encoding pairs; all runes",
  why="The order must agree between the code-unit fast path and the rune path, including UTF-16, whose code units sort differently from its runes; tests compare a handful of literals.",
  files=["best/text/str.h", "best/text/encoding.h", "best/memory/span.h", "best/memory/internal/bytes.h"],
  mech=[("pretext::operator==, operator<=>", "best/text/str.h"), ("strip_prefix", "best/text/str.h"), ("same_encoding", "best/text/encoding.h")],
  note=TRUST + "Uses that encoding is injective and that lexicographic encodings are (both U02). Bounded in length; ill-formed pretexts are outside the property."),
 dict(id="T05", title="A textbuf holds exactly the runes pushed to it and stays well-formed",
  statement="After any push of a rune or of text in any encoding, a textbuf holds its previous contents followed by the encoding of exactly those runes; push() fails, leaving the contents unchanged, exactly if some rune has no encoding, while push_lossy() substitutes U+FFFD or, failing that, '?'. An ill-formed unit of a pretext is pushed as U+FFFD. from() accepts exactly well-formed code units; transcode() succeeds exactly if every rune can be represented. truncate() inside a rune crashes. Copies and moves preserve contents and are independent, allocators are kept, nothing is written outside the buffer, and all memory is returned.",
  quant="all runes and texts of up to two runes (pretexts of up to 3 units, ill-formed included) in six encodings, eleven pairs of encodings, onto buffers empty, at and around the inline/heap transition; truncation at every size_t",
  why="push() encodes directly into spare capacity, with rollback on failure and growth in between; the interplay of capacity, rune width and failure position is not enumerable by tests.",
  files=["best/text/strbuf.h", "best/text/rune.h", "best/text/str.h", "best/container/vec.h"],
  mech=[("textbuf::push, push_lossy, from, transcode, truncate", "best/text/strbuf.h"), ("rune::encode", "best/text/rune.h"), ("vec growth", "best/container/vec.h")],
  note=TRUST + "Bounded in the length of what is pushed. Pushing (part of) a textbuf onto itself is outside the property; so is concatenation of WTF-8 halves of a surrogate pair, which is not rejected."),
 dict(id="S02", title="Rearranging, filling, dividing, sorting and iterating over spans",
  statement="swap(), reverse(), copy_from(), emplace_from() and destroy() change exactly the elements they name: swapping exchanges two, reversing mirrors all, copying writes the common length in order and leaves the source alone. sort() and stable_sort(), by natural order, key or comparison, permute the elements into order, stable_sort() keeping equal elements in order; bisect() finds an element exactly if there is one, or else the insertion point. first(), last(), split_first(), split_last(), split_at(), take_first(), take_last(), from_nul() denote exactly the parts their names say, and are none exactly when there are too few elements. Iterating, from either end and in any interleaving, yields each element once.",
  quant="all spans of up to 4-6 elements of integer, address-sensitive and heap-owning types; all indices; sorting all inputs of 2-5 elements, and two-key patterns of 40 and 150, under three kinds of order; all interleavings of next() and next_back()",
  why="Order-dependent algorithms have factorially many inputs; off-by-one slices and lifetime errors only show for particular sizes and element types.",
  files=["best/memory/span.h", "best/memory/span_sort.h", "best/memory/ptr.h", "best/iter/iter.h"],
  mech=[("span::swap, reverse, copy_from, emplace_from, destroy, take_first, take_last, split_*", "best/memory/span.h"), ("span::sort, stable_sort", "best/memory/span_sort.h")],
  note=TRUST + "Bounded in length; longer inputs only in patterns of two arbitrary keys."),
 dict(id="R02", title="A row keeps each element in its place through every operation",
  statement="Every accessor of a row ([], at, get, first, second, last, object, apply, each, as_ref, as_args, structured bindings) yields the element at its index, in every value category; copying, moving and assigning a row copies, moves or rebinds each element. push, insert, update, splice, join, remove, erase, gather, scatter, select and slicing yield exactly the named elements, of the named types, in order, moved from an rvalue row and leaving any other row as it was. Rows are equal exactly if all elements are, and are ordered by the first that differs. Every element is destroyed exactly once.",
  quant="all element values, for rows of up to five elements of integer, address-sensitive, heap-owning, move-only, reference, void and empty types; lvalue, const and rvalue rows",
  why="Each operation is a permutation computed at compile time, instantiated anew for every combination of types, indices and value categories; tests instantiate one or two.",
  files=["best/container/row.h", "best/container/internal/row.h", "best/meta/internal/tlist.h", "best/container/object.h"],
  mech=[("row operations", "best/container/row.h"), ("slice, splice, gather, scatter, join", "best/container/internal/row.h"), ("tlist lookup tables", "best/meta/internal/tlist.h")],
  note=TRUST + "Bounded by the instantiations in the witness."),
 dict(id="I01", title="Iterators and adaptors yield exactly their items, in order, from either end",
  statement="An iterator yields each of its items exactly once, in order, whether driven by next(), next_back() in any interleaving, a range-for loop, count(), last(), to_vec() or collect(), and none after that. rev() yields them in the opposite order; map() yields the callback's results, calling it once per item; inspect() shows each item to its callback and passes it on unchanged; enumerate() pairs each with its position; take(n) yields the first n and takes no more from its source. References stay references to the same object. An int_range yields precisely the integers it denotes, including all of them. size_hint() always bounds what is left from below and above. Every object is destroyed exactly once.",
  quant="all sequences of up to 2-3 items of integer, address-sensitive and heap-owning type, by value and by reference, and all interleavings; all int_ranges over six integer types, by every way of giving the end, and the first four steps from either end; text of up to three runes in four encodings",
  why="Adaptors compose, and each must keep count for both ends; integer ranges have corner cases at both extremes of every type that tests do not reach.",
  files=["best/iter/iter.h", "best/iter/bounds.h", "best/memory/span.h", "best/text/str.h"],
  mech=[("iter, iter_range, rev, map, inspect, enumerate, take", "best/iter/iter.h"), ("int_range::iter and iter_impl", "best/iter/bounds.h")],
  note=TRUST + "Bounded in length. A range without any end stops short of max_of<Int> unless it starts at min_of<Int>: that, and a negative count, are outside the property."),
 dict(id="D01", title="A dyn calls the implementation of the object it was made from",
  statement="A dynptr denotes the object it was made from (same address, same layout), and a call through it, through a dynptr converted from it (to const, to fewer or reordered interfaces), or through anything whose interface it implements runs the implementation of that object's type, on that object, with the arguments given, returning its result, references included; an overridden function is preferred to the default, and the default runs on the same object. A dynbox owns what was put in it: assigning or moving replaces or transfers it, try_copy() succeeds exactly for copyable types and then holds an equal, separate object with the allocator kept; each object is destroyed exactly once and its memory returned with its true layout. There is one itable per type, and it describes that type's size, alignment and copyability.",
  quant="all object states and arguments, for five implementing types (inline members, overload-defined, heap-owning, with and without overridden defaults, move-only) and two interfaces in both orders; all ways of forming, copying, converting and assigning dynptrs and dynboxes, in pairs of differing types",
  why="Dispatch goes through type-erased function pointers and erased layouts: a table entry of the wrong type, size or copyability only misbehaves for particular pairs of types.",
  files=["best/func/dyn.h", "best/func/internal/dyn.h", "best/container/box.h", "best/memory/ptr.h"],
  mech=[("itable, dyn, dynptr, dynbox, of()", "best/func/dyn.h"), ("itable headers, binders", "best/func/internal/dyn.h"), ("box construction, copy and assignment", "best/container/box.h")],
  note=TRUST + "Bounded by the instantiations in the witness. A pointer to const T converts to a dynptr of const interfaces only if all of their functions are const."),
 dict(id="D02", title="Function wrappers call exactly what they wrap, once, as given",
  statement="A fnref, made from a function, a function pointer, a closure or an object with a call operator, calls exactly that, on the original object, with the arguments passed on unchanged and its result (references included) returned or, for void, discarded; copies and assignments rebind it. A defer runs its closure exactly once, at the end of its scope or when run() is called, and never if cancelled first. x->*tap calls the tap's function with x and returns its result; calling or indexing through a tap does so with the arguments given; inspect() returns its argument itself. best::call() calls functions, call operators of any qualification and template form, and member pointers on objects, references or pointers; arrow and deref_arrow() follow operator-> to the final object.",
  quant="all argument and object values; lvalue, const and rvalue wrappers; integer, address-sensitive and heap-owning arguments and captures; every order of run(), cancel() and scope end of up to three steps",
  why="The wrappers erase types and value categories: a wrong cast or category copies, dangles, or calls twice only for particular callable types.",
  files=["best/func/fnref.h", "best/func/internal/fnref.h", "best/func/defer.h", "best/func/tap.h", "best/func/call.h", "best/func/internal/call.h", "best/func/arrow.h"],
  mech=[("fnref constructors and operator()", "best/func/fnref.h"), ("defer::run, cancel", "best/func/defer.h"), ("tap, inspect", "best/func/tap.h"), ("call", "best/func/call.h"), ("arrow, deref_arrow", "best/func/arrow.h")],
  note=TRUST + "Outside the property: mutable fnrefs to const objects, fnref(unsafe, nullptr, bound), a defer that runs itself."),
 dict(id="F01", title="Formatting prints exactly what the template and its specs call for",
  statement="A template is accepted exactly if it is literal text, {{, }} and replacement fields of the documented grammar whose arguments exist and support the width, precision and method asked for; its text and the named (or counted) arguments are printed in that order, each with the spec its field spells out, {:!} with the spec in force. Integers print the digits of their value in the base of the method, with sign, prefix and zero padding as the flags say, for every value including the least of a signed type; strings print at most prec runes; both are padded to the width with the fill, on the side of the alignment. Quoting escapes exactly the quotes, backslash and control characters. Blocks put each entry on its own line, indented by the depth, under '#', and on one line otherwise, every line of a written string appearing once; option, result, row and bool print their contents. format(buf, ...) appends to buf, and all temporary memory is returned.",
  quant="all values of the eight 8- to 64-bit integer types in base 10 and of the 8-bit types in every base with all flags and three widths; texts of up to two runes in five encodings, every precision and alignment; all 16- and 32-bit characters; block trees of depth two over texts with newlines anywhere; all replacement fields of up to 7 bytes, all templates of up to five pieces",
  why="Boundary values, widths equal to the length, zero precision and newlines at the edges of a chunk each take their own path; no test samples their combinations.",
  files=["best/text/format.h", "best/text/format.cc", "best/text/internal/format_impls.h", "best/text/internal/format_parser.h", "best/text/rune.h"],
  mech=[("BestFmt for integers and strings", "best/text/internal/format_impls.h"), ("visit_template", "best/text/internal/format_parser.h"), ("formatter::write, block, compute_padding", "best/text/format.cc"), ("formatter::write(string), format", "best/text/format.h"), ("rune escapes", "best/text/rune.h")],
  note=TRUST + "Bounded in lengths as stated. Addresses printed by {:p}, and print() to streams, are outside the property."),
]
