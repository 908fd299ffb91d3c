#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

AR, OPS, OWN, BOR, IDX = ("src/bv/arithmetic.rs", "src/bv/ops.rs", "src/bv/owned.rs", "src/bv/borrowed.rs", "src/bv/indexed.rs")
STR, BIG, BYT = ("src/bv/io/strings.rs", "src/bv/io/bigint.rs", "src/bv/io/bytes.rs")
AO, AW = ("src/array/ops.rs", "src/array/owned.rs")
NARROW = ("The unit tests call the word-level helpers on proptest samples; bit-string arguments come from \"[01]+\", "
          "which never exceeds 32 bits, so multi-word operands are practically unreached.")

prop("C01", "Every reachable bit-vector value is in canonical form",
 "A bit-vector value obtained through the public API by any chain of constructions, conversions, operations and in-place updates with in-range arguments has exactly the documented width, occupies exactly ceil(width/64) words, and has every storage bit above its width equal to zero. Its numeric content after the chain is the one the bit-vector semantics of the individual steps prescribe.",
 ["histories", "inputs"], "all chains of public operations (results fed back as operands, owned or borrowed) over all widths including 0",
 "Tests look at one operation at a time from a fresh value and only at a few sampled widths; a result with stray bits is only noticed when a later comparison, hash, conversion or string goes wrong.",
 [AR, OPS, OWN, STR, BIG, BYT],
 [("masking of the top word after every operation", AR), ("constructors and assign_* mask after writing", OPS)],
 ["BitVecOps::width", "BitVecOps::words"],
 [("words", "little-endian 64-bit storage of a value", OWN), ("width", "declared bit width", OWN)])

prop("C02", "Addition, subtraction and negation are exact modulo 2^width",
 "For any width (including 0) and any two values of that width, addition, subtraction and negation return the value of that width that is congruent to the integer result modulo 2^width; carries and borrows propagate over any number of words. The + and - operators on owned values give the same results as the methods.",
 ["inputs"], "all widths including 0, all operand pairs",
 "Sampled random operands almost never contain long carry chains ending exactly at a word or width boundary; only the internal helpers are sampled, not the public methods and operators.",
 [AR, OPS, OWN], [("carry chain over words, then mask", AR), ("declare_arith_bin_fn wrappers", OPS), ("operator impls", OWN)],
 ["BitVecOps::add", "BitVecOps::sub", "BitVecOps::negate", "std::ops::Add/Sub for &BitVecValue"])

prop("C03", "Multiplication is exact modulo 2^width",
 "For any width (including 0) and any two values of that width, multiplication returns, without panicking, the value of that width that is congruent to the integer product modulo 2^width.",
 ["inputs"], "all widths including 0, all operand pairs",
 "The only active test is one 50-bit product; the property test for arbitrary widths is ignored because wide multiplication was left unimplemented.",
 [AR, OPS], [("word product and mask", AR)], ["BitVecOps::mul"])

prop("C04", "Bitwise operations and single-bit access act on exactly the right bits",
 "And, or, xor and not compute every result bit from the operand bits at the same position, for any width (including 0). Reading, setting or clearing the bit at a position below the width observes or changes that bit only. The public low-bit mask of n bits (1 <= n <= 64) has exactly the n low bits set.",
 ["inputs"], "all widths including 0, all operand pairs, all positions below the width",
 "There is no test for and/or/xor/not or for set/clear/is-bit-set at all; mask is only used indirectly.",
 [AR, OPS], [("bitwise_bin_op / bitwise_un_op + mask_msb", AR), ("word/bit index split", AR)],
 ["BitVecOps::and/or/xor/not", "BitVecOps::is_bit_set", "BitVecMutOps::set_bit/clear_bit", "mask"])

prop("C05", "Left, logical right and arithmetic right shifts are exact for every amount",
 "For any width (including 0), any value and any shift amount held in a bit-vector of the same width, the left and logical right shift move the bits by the full unsigned amount and fill with zeros, and the arithmetic right shift fills with the sign bit; an amount at or above the width yields all zeros (or all sign bits), no matter which word of the amount carries it.",
 ["inputs"], "all widths including 0, all values, all shift amounts representable in the width",
 NARROW + " Word-multiple amounts, amounts with bits above the first word and results whose top word needs masking are not reached.",
 [AR, OPS], [("get_shift_amount", AR), ("shift_left / shift_right via slice / sign padding", AR)],
 ["BitVecOps::shift_left", "BitVecOps::shift_right", "BitVecOps::arithmetic_shift_right"])

prop("C06", "All comparisons agree with integer order, unsigned and two's complement",
 "For any width (including 0) and any two values of the same width, each of the equal / not-equal and the eight greater / less (or equal), unsigned and signed predicates returns exactly what comparing the denoted unsigned or two's-complement integers returns. In particular the predicates are mutually consistent: exactly one of less, equal, greater holds, and the non-strict ones include equality at every width.",
 ["inputs"], "all widths including 0, all operand pairs",
 "Tests sample the word-level compare helpers with random pairs, which are essentially never equal and never share their high words, and never call the public predicates.",
 [AR, OPS], [("most-significant-word-first comparison", AR), ("sign case split", AR), ("less* via swapped greater*", OPS)],
 ["BitVecOps::is_equal/is_not_equal/is_greater*/is_less*"])

prop("C07", "Slice, concatenation and extension move every bit to the right place",
 "Slicing bits msb..lsb (lsb <= msb < width), concatenating two values, and zero- or sign-extending by any amount (including 0) return a value of the documented width in which every bit equals the operand bit the definition names, or the fill bit. Hence slicing a concatenation gives back the parts, and truncating an extension gives back the operand.",
 ["inputs"], "all widths (including 0 for concatenation and extension), all slice bounds, all extension amounts, all width pairs",
 NARROW + " Slices spanning several words at odd offsets, concatenations at unaligned multi-word boundaries are not reached.",
 [AR, OPS], [("shifted word copy in slice/concat", AR), ("sign fill + mask in sign_extend", AR)],
 ["BitVecOps::slice", "BitVecOps::concat", "BitVecOps::zero_extend", "BitVecOps::sign_extend"])

prop("C08", "Conversions to and from machine integers and booleans are exact",
 "Constructing from a u64, i64 or bool and reading back as u64, i64 or bool preserves the number: reading returns the exact unsigned / two's-complement value if and only if it is representable in the requested type (bool: iff the width is 1), for every width including 0. A number that does not fit the width is rejected when debug assertions are on and reduced modulo 2^width otherwise; the zero / one / true / false / negative predicates and constants agree with the value.",
 ["inputs", "configurations"], "all widths, all machine integers, with and without debug assertions",
 "Round trips are only sampled at width 64; narrow sign extension, values wider than 64 bits, negative wide values and the truncation/rejection boundary are untested except for two hand-picked cases.",
 [OPS, OWN], [("assign_from_u64/assign_from_i64", OPS), ("to_u64/to_i64 representability tests", OPS)],
 ["BitVecValue::from_u64/from_i64/from_bool/zero/ones/tru/fals", "BitVecOps::to_u64/to_i64/to_bool/is_tru/is_fals/is_zero/is_negative"])

prop("C09", "Binary and hexadecimal strings denote the value exactly",
 "The unsigned binary string has exactly width digits and the unsigned hexadecimal string exactly ceil(width/4) digits, most significant first, and they denote the unsigned value. The signed binary and hexadecimal strings denote the two's-complement value (a leading minus exactly for negative values, followed by the magnitude; no digits stand for zero), and parsing any of these strings at the same width gives the value back.",
 ["inputs"], "all widths including 0, all values (including the most negative one)",
 "Only strings sampled from short regexes are round-tripped, always at the width derived from the string itself, so the most negative value, width 1 and widths just above a word are never rendered.",
 [STR, OPS], [("to_bit_str_internal / to_hex_str_internal digit loops", STR), ("negate + width-1 digits for the signed form", STR)],
 ["BitVecOps::to_bit_str/to_hex_str/to_bit_str_signed/to_hex_str_signed", "BitVecValue::from_str_radix", "Debug"])

prop("C10", "Decimal strings denote the value exactly, for any width",
 "The decimal string of a value is the base-10 numeral of its unsigned value without leading zeros (\"0\" for zero), for every width, and parsing it at the same width in base 10 gives the value back; neither direction panics.",
 ["inputs"], "all widths including 0, all values",
 "The round trip is sampled on at most 33-bit values; three-or-more-word values were left unimplemented.",
 [STR, OPS], [("word count dispatch in to_dec_str", STR), ("parse_base_10", STR)], ["BitVecOps::to_dec_str", "BitVecValue::from_str_radix(.., 10, ..)"])

prop("C11", "Parsing accepts exactly the numerals that fit, with the right value",
 "Parsing a string in base 2, 10 or 16 (any base up to 36 for widths up to 128) at a width >= 1 succeeds if and only if it is empty or an optional single sign followed by one or more digits of the base and the integer lies in -2^(width-1) .. 2^width-1; the result is that integer (empty: 0) as a canonical value, independent of what the destination held before and of leading zeros. Otherwise an error is returned, never a panic, and the destination keeps its previous value; the error reports an exceeded width if the string is a well-formed numeral, and an invalid digit if it is malformed and not longer than the width allows. The constructors that infer the width use one bit (four bits) per digit plus one if there is a minus sign.",
 ["inputs", "histories"], "all strings, all bases in range, all widths >= 1, all previous contents of the destination",
 "Tests only parse strings that are valid and have exactly the inferred width; malformed input, over-long numerals, leading zeros, explicit widths and re-used destinations are untested.",
 [STR, OWN, OPS], [("from_str_radix sign handling and dispatch on word count", STR), ("parse_base_2/10/16", STR), ("determine_width_from_str_radix", STR)],
 ["BitVecValue::from_str_radix/from_bit_str/from_hex_str", "BitVecMutOps::assign_from_str_radix"])

prop("C12", "Little-endian byte conversion is exact and inverse",
 "Exporting yields exactly ceil(width/8) bytes, least significant first, that denote the unsigned value with zero padding bits in the last byte. Importing up to ceil(width/8) bytes at a given width yields the number they denote, missing high bytes reading as zero and bits beyond the width dropped, so import after export is the identity for every width including 0.",
 ["inputs"], "all widths including 0, all values, all byte strings of up to ceil(width/8) bytes",
 "Tests only import at the minimal width that fits the sampled bytes; short inputs, surplus bits and other widths are not exercised.",
 [BYT, OPS, OWN], [("to_bytes_le / from_bytes_le loops and mask", BYT)], ["BitVecOps::to_bytes_le", "BitVecValue::from_bytes_le"])

prop("C13", "Big-integer conversion is exact and inverse",
 "Converting to an arbitrary-precision unsigned or signed integer yields exactly the unsigned / two's-complement value, and converting back at the same width restores the value, for every width including 0. Converting any big integer representable at a given width yields the value denoting it, and the width-inferring conversions use the bit length of the magnitude (unsigned; 0 bits for zero), plus one sign bit (signed).",
 ["inputs"], "all widths including 0, all values, all representable big integers",
 "Tests only round-trip random decimal strings at the inferred width; explicit wider widths, the most negative value and sign-extended multi-word negatives are rarely or never hit.",
 [BIG, OWN, OPS], [("iter_to_word zero fill / mask", BIG), ("negate for negative numbers", BIG), ("count_big_*_bits", BIG)],
 ["BitVecOps::to_big_int/to_big_uint", "BitVecValue::from_big_int/from_big_uint", "From<&BigInt>/From<&BigUint>"])

prop("C14", "Fixed-point conversion is exact whenever it returns a fraction",
 "Interpreting a value as an unsigned or signed fixed-point number with f fraction bits (f <= width) never panics and, whenever it returns a fraction, that fraction equals value / 2^f exactly. It does return one whenever the width is at most 64 and f is at most 63.",
 ["inputs"], "all widths including 0, all f <= width, all values",
 "There is no test of this feature at all.",
 [OPS], [("to_unsigned_fixed_point / to_signed_fixed_point", OPS)], ["BitVecOps::to_unsigned_fixed_point", "BitVecOps::to_signed_fixed_point"])

prop("C15", "Equality, hashing and ordering agree for owned and borrowed values",
 "Two bit-vectors compare equal if and only if they have the same width and the same value, for every combination of owned and borrowed operands; equal ones hash identically whether owned or borrowed, and the ordering of owned values is a total order consistent with equality. Hence a hash map or ordered map keyed by owned values finds exactly the entries whose key has the same width and value, looked up by an owned or by a borrowed key, whatever history produced the key.",
 ["inputs", "histories"], "all pairs/triples of values and widths, all histories producing them",
 "Tests hash individual samples but never compare values of different widths with the same words, never use the ordering and never do a map lookup.",
 [OWN, BOR], [("derived Hash/Ord on width and words", OWN), ("PartialEq across BitVecOps", BOR), ("Borrow impl used by map lookups", BOR)],
 ["PartialEq/Eq/Hash/Ord of BitVecValue and BitVecValueRef", "std::collections::HashMap/BTreeMap"])

prop("C16", "References into a shared word store see and change exactly their own words",
 "For any layout of indices in a shared word store, a reference obtained for an index reads the value stored in exactly the words of that index, and a mutable reference obtained alone or together with one or two source references writes only the destination's words, leaving every other word untouched. Source references reflect their own words whether they lie before or after the destination and whether or not they overlap each other; a source overlapping the destination is refused by a panic rather than silently aliased.",
 ["inputs", "configurations"], "all placements (offset, width) of up to three operands in a store, all contents",
 "One test uses two adjacent one-word indices and one checks three placements of the splitting helper; adjacent, overlapping and mixed-width triples are not enumerated.",
 [IDX], [("split_borrow_1 / split_borrow_2 range arithmetic", IDX), ("BitVecValueIndex::to_range", IDX)],
 ["IndexToRef::get_ref", "IndexToMutRef::get_mut_ref", "BitVecValueIndex"])

prop("C17", "The interner is canonical, injective and stable over any history",
 "After any sequence of insertions, interning a value returns an index with the value's width that reads back exactly that value, and keeps doing so after any further insertions; interning an equal value again returns the same index, and different values or widths get different indices. The zero and one tests on indices hold exactly for indices of the values zero and one. A cloned interner behaves like the original and is independent of it.",
 ["histories"], "all insertion sequences over all values and widths including 0",
 "Each test interns at most three values into a fresh interner and compares one pair.",
 [IDX], [("pre-seeded constants, small map, large map", IDX)], ["ValueInterner::get_index/words/is_zero/is_one", "IndexToRef::get_ref"],
 [("words", "shared storage indices point into", IDX), ("small/large", "value-to-index maps", IDX)])

prop("C18", "Arrays return the last stored value for every index, in any representation",
 "After any sequence of stores and clears on a dense or sparse array, selecting an index returns the data last stored at that index, or zero if a clear came later, or the default if neither happened; no store changes any other index, and widths and element count never change. This holds for every index width (including 0 and beyond 64 bits for sparse arrays) and every data width (including 0), and a clone evolves independently of its original.",
 ["histories", "configurations"], "all operation sequences, all index/data width combinations, both representations",
 "No test ever calls store, select or clear on an array.",
 [AW, AO], [("dense bit/byte/word/multi-word layouts", AW), ("sparse maps with default elimination", AW)],
 ["ArrayOps::select", "ArrayMutOps::store/clear", "ArrayOps::index_width/data_width/num_elements/words_per_element"],
 [("dense data", "packed bits, bytes, words or multi-word elements", AW), ("sparse default + map", "entries that differ from the default", AW)])

prop("C19", "Changing an array's representation preserves its contents",
 "Building an array from a slice, converting between the dense and sparse representations in either direction, any number of times and at any point of an operation history, keeps the index width, the data width and the value at every index (slices are zero-padded to the next power of two), and later stores and selects behave identically in either representation. The dense/sparse queries report the representation last requested.",
 ["histories", "inputs"], "all array contents, all histories with conversions interleaved, all width combinations with dense support",
 "Three tests convert one fixed small slice each; no bytes above 7, no multi-word data, no conversion after stores.",
 [AW], [("From<&Sparse> for Dense / From<&Dense> for Sparse with default search", AW), ("make_dense", AW)],
 ["ArrayValue::make_dense/is_dense/is_sparse", "SparseArrayValue::from(ArrayValue)", "ArrayValue::from(&[bool]/&[u8]/&[u64])"])

prop("C20", "Array equality is extensional, independent of representation and history",
 "Two arrays of the same index and data width are equal if and only if they hold the same value at every index, no matter which representation, default value or operation history each has; arrays of different types are reported as not comparable and unequal. Equality is reflexive and symmetric, and the wrapper type for values compares equal exactly when the wrapped array or bit-vector does and converts back to exactly what was wrapped.",
 ["histories", "inputs"], "all pairs of arrays of all histories and representations",
 "Tests only compare an array with its own round-trip conversion, never unequal arrays or differently built equal ones.",
 [AW, "src/lib.rs"], [("is_equal per representation pair", AW), ("derived PartialEq on Value", "src/lib.rs")],
 ["ArrayValue::is_equal", "PartialEq for ArrayValue", "Value"])

prop("C21", "Serialisation round trips preserve values and arrays",
 "Serialising any bit-vector value, array or sparse array and deserialising the result yields an object equal to the original, with the same widths and representation, canonical, and behaving identically under every further operation.",
 ["inputs", "histories"], "all values and arrays of any history, through self-describing and non-self-describing formats",
 "No test serialises anything.",
 [OWN, AW], [("derived Serialize/Deserialize", OWN), ("derived Serialize/Deserialize", AW)], ["serde::Serialize", "serde::Deserialize"])

prop("C22", "In-place updates leave no residue and touch nothing else",
 "Assigning from a value, machine integer or numeral, clearing, setting to all ones, and setting or clearing bits leaves the target with exactly the documented new value at its unchanged width, independent of the previous contents except for the bits an update is defined to keep, whether the target is an owned value, a mutable reference to one, or a slot in a shared store. The source operand and all neighbouring storage are unchanged.",
 ["histories"], "all sequences of in-place updates, all widths including 0, all targets",
 "One test assigns twice into a 123-bit zero; no test applies an update to non-zero contents or through a mutable reference to a wide slot.",
 [OPS, OWN, BOR], [("BitVecMutOps default methods", OPS)], ["BitVecMutOps::assign/clear/assign_ones/assign_from_u64/assign_from_i64/assign_from_str_radix/mask_msb/set_bit/clear_bit"])

prop("C23", "Results do not depend on how operands are held",
 "Every read-only operation gives the same result whether each operand is an owned value, a shared reference, a mutable reference, or a view into a shared word store surrounded by arbitrary other data, and whether the two operands are the same object or equal copies. Converting between owned and borrowed forms preserves width and value.",
 ["inputs", "configurations"], "all operations, all combinations of operand holders, all widths including 0, all values",
 "Almost all tests call internal helpers on plain slices; the trait methods are only exercised on owned values.",
 [OPS, OWN, BOR, IDX], [("shared default methods over words()/width()", OPS), ("From conversions between owned and borrowed", BOR)],
 ["BitVecOps for BitVecValue, BitVecValueRef, BitVecValueMutRef", "From<&BitVecValue>/From<BitVecValueRef>/From<&mut BitVecValue>"])

prop("C24", "A sparse array lists exactly its non-default entries, each once",
 "At any point of any history of stores, clears and conversions, iterating a sparse array's entries yields every index whose value differs from the array's default exactly once, with that value and with the array's index and data widths, and nothing else. The reported default is the value returned for every index not listed.",
 ["histories"], "all operation sequences on sparse arrays and conversions into them, all index/data widths",
 "One test iterates one converted 8-element array.",
 [AW], [("default elimination on store", AW), ("entry iterator", AW)], ["SparseArrayValue::non_default_entries/default", "SparseArrayValue::from(ArrayValue)"])

prop("C25", "With debug assertions, calls outside the contract are rejected unharmed",
 "When the crate is built with debug assertions, these calls panic instead of returning, and leave every value, store and array they were given as it was: arithmetic, bitwise, shift and comparison operations (and the + and - operators) on two operands of different widths; assigning a value of another width; a slice whose upper bound is not below the width or is below its lower bound; a fixed-point conversion with more fraction bits than the value has; reading or writing an array with an index or value of another width than its type; creating, or converting to, a dense array of more than 1 GiB, while exactly 1 GiB is accepted. Without debug assertions such calls have no effect on operands that are only read or on storage outside the target.",
 ["inputs", "configurations"], "all pairs of different widths, all operations, all ways to hold the operands, all array types",
 "No test passes a mismatched operand.",
 [OPS, AW], [("debug assertions in the default methods and macros", OPS), ("index and data width assertions, dense storage limit", AW)],
 ["BitVecOps binary operations and predicates", "BitVecMutOps::assign", "BitVecOps::slice/to_unsigned_fixed_point/to_signed_fixed_point", "ArrayOps::select, ArrayMutOps::store", "ArrayValue::new_dense/make_dense"])

prop("C26", "Results do not depend on earlier calls or on other objects",
 "What a call returns, and what it does to its target, is determined by its arguments and the current contents of the object it is called on: the same call gives the same result no matter which calls were made before, how often, on which other values, interners or arrays, and whether the same storage held something else earlier; using one value, interner or array never changes what another one answers. (Which of several equally frequent values becomes the default of an array made sparse, and the order in which entries are listed, are not part of this.)",
 ["histories"], "all histories of calls over all operations and objects",
 "Every test makes its calls on fresh values, once.",
 [OPS, OWN, IDX, AW, STR, AR], [("pure functions over words", AR), ("per-object tables of the interner", IDX), ("string conversions", STR), ("array contents", AW)],
 ["BitVecOps", "BitVecMutOps", "BitVecValue constructors", "ValueInterner::get_index", "ArrayValue"])

prop("C27", "Debug output shows exactly the bits of a value",
 "The debug text ({:?} and {:#?}) of a bit-vector value, of an immutable or mutable reference to one, and of a view into a word store, alone or inside other values, shows all bits of the value, most significant first, as many as its width, and no other bits; printing changes nothing.",
 ["inputs"], "all widths including 0, all values, all ways to hold a value",
 "No test prints a value for debugging; a failing assertion would mislead its reader.",
 [OWN, BOR, STR], [("Debug impls", OWN + ", " + BOR), ("to_bit_str_internal", STR)], ["Debug for BitVecValue, BitVecValueRef, BitVecValueMutRef, Value"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
