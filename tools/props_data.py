P('P01', 'Field tags and tokens encode and decode exactly',
  'A field tag or token built from a type, an identifier (or an offset and size) and flags gives back exactly those parts through every accessor, for every representable combination. Two tags denote the same field exactly when placement, type and identifier (or offset and size) agree, and tag ordering is a strict total order on fields with fixed-placement fields first in order of placement. The per-type size tables agree with the storage each type really takes.',
  ['inputs'], 'every type, id 0..2047, offset 0..max, size 1..2047, every flag combination; every pair and triple of 32-bit tags for the order laws',
  'the suite builds a few dozen tags; the bit fields overlap and the combinations number in the billions',
  ['fast_positive/tuples/essentials.h', 'fast_positive/tuples/token.h', 'src/tablets.cxx', 'fast_positive/tuples/details/field.h'],
  [('make_tag / tag_from_offset / tag2* / tag_less / tag_same', 'essentials.h'), ('token', 'token.h'), ('size tablets', 'tablets.cxx')],
  'All obligations discharged for all inputs. Trusted: clang front end and IR semantics in vc/exec.py, Z3/cvc5.', technique=T)
P('P02', 'Index lookup returns exactly the first matching field',
  'Looking up a field descriptor in a tuple index returns the first index item holding that descriptor, or nothing when no item inside the index holds it, whichever CPU-specific search routine is selected. The search looks only at items inside the index for its answer and never touches a memory page that the index does not occupy. An inverted (hollow) range is treated as empty.',
  ['inputs', 'configurations'], 'every index length, alignment and content, every descriptor, and every search implementation (portable, unrolled, SSE2, AVX, AVX2)',
  'the suite uses arrays of at most 64 items in the middle of the stack: long-index loops, page edges and content-dependent paths are not reached',
  ['src/scan_portable.cxx', 'src/scan_SSE2.cxx', 'src/scan_AVX.cxx', 'src/scan_AVX2.cxx', 'fast_positive/tuples/details/scan.h'],
  [('fptu_scan_*', 'src/scan_*.cxx')],
  'Portable variants: everything proved for all inputs with inferred and checked loop invariants. SSE2/AVX/AVX2: memory safety, loop frames and the hollow case proved; the functional postcondition is a bounded stand-in (every length up to 300, every first-match position, 64 page placements).')
P('P03', 'Variable-length values and tuple headers are stored exactly',
  'Every text, binary, property and nested-tuple value that fits the limits is stored in exactly the space estimated for it and reads back with exactly the same length, content and (for properties) identifier; padding is zeroed; a value over the limit of its type is rejected with value_too_long before anything is written. Headers, relative offsets and holes give back exactly the counts, flags, sizes and positions put into them.',
  ['inputs'], 'every length 0..limit (and every longer one for rejection) and every content; every header count/flag/size; every offset 1..65535',
  'lengths switch encodings (254/255, tail bytes, limits near 128 KB and 256 KB); the suite stores a handful of lengths',
  ['fast_positive/tuples/details/field.h', 'fast_positive/tuples/details/meta.h', 'fast_positive/tuples/essentials.h'],
  [('stretchy_value_string/varbin/property/tuple', 'details/field.h'), ('relative_offset, field_loose', 'details/field.h'), ('genus_traits<text/varbin/nested/property>', 'details/meta.h')],
  'All obligations discharged for all inputs (lengths and contents symbolic, memcpy/memset by contract).', technique=T)
P('P04', 'Fixed-size values are stored and read back exactly, with exact NULL semantics',
  'For every fixed-size type, setting a field and getting it returns the very same value; no neighbouring byte, index item or descriptor changes. A field with discernible NULL reads as absent (field_absent, exist() false) exactly when it is missing or holds the designated null of its type; without discernible NULL a missing or erased field reads as the empty (zero) value. Reading or writing a field through an accessor of another type throws type_mismatch and changes nothing. t32 keeps whole seconds.',
  ['inputs'], 'every type, every value of it (NaN/Inf excluded: the product is built with -ffast-math), fixed-placed and loose, every offset, both NULL modes, every other byte of the tuple',
  'tests set a few values per type; wrong widths, neighbour clobbering, or a denil mix-up show only on particular bit patterns',
  ['fast_positive/tuples/details/meta.h', 'fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/rw.h', 'src/tablets.cxx'],
  [('genus_traits<...>::read/write/erase/is_denil/is_empty', 'details/meta.h'), ('accessor_ro::get/exist', 'details/getter.h'), ('accessor_rw::set', 'details/rw.h'), ('field_preplaced::is_null', 'src/tablets.cxx')],
  'All obligations discharged for all inputs. decimal64 is proved for the clang layout of the type (opaque 8 bytes).', technique=T)
P('P06', 'Space inside a modifiable tuple is never shared, leaked or miscounted',
  'Allocating a field or a value inside of a modifiable tuple gives space which lies inside of the data area, was free, and is disjoint from the reserved area of preplaced fields and from everything else in use; releasing gives exactly that space back. At any moment each unit of the data area is in exactly one of the three states: in use, covered by exactly one hole of the index, or behind the tail; holes neither overlap nor touch each other nor the tail; the counter and the volume of holes are exact. No operation changes an index item it does not own, only holes are removed from the index, and an operation refused with insufficient_space changes nothing.',
  ['history', 'inputs'], 'every layout of a tuple (any number of items, any mix of fields and holes in any order of the index), every size requested or released: one step from any sound state, hence every history',
  'merging of a released chunk with its neighbours depends on which of three items is the first of the index and what follows it; tests reach a few of these combinations',
  ['src/gear.cxx', 'fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/field.h'],
  [('tuple_rw::alloc_data/alloc_loose', 'src/gear.cxx'), ('tuple_rw::release_loose/release_data', 'src/gear.cxx'), ('gear::merge_holes/index_alloc/tail_alloc/trim_hole/lookup_hole/lookup_adjacent_holes', 'src/gear.cxx')],
  'Proved for a tuple of any size in any sound layout: alloc_data, alloc_loose, release_loose and release_data (with merge_holes, index_alloc, tail_alloc) preserve the invariant, stated about an arbitrary unit and two arbitrary items. The harder half of the cases (holes on both sides of the released space, some positions of the items in the index, reuse of an empty hole) is discharged in the thorough run only, the quick one has them bounded. The contracts of trim_hole, lookup_hole and lookup_adjacent_holes are assumed by the proofs and checked bounded; realloc_data is bounded (P07).', technique=TB)
P('P07', 'A modifiable tuple behaves as a map under every history',
  'After any sequence of set, insert, erase, optimize, copy, reload and reset, every field reads exactly the value last stored in it (a collection: exactly the multiset stored), absent fields are absent, loose_count() matches, and the internal layout stays sound: payloads lie inside the data area, never overlap, holes are accounted for exactly. Operations on one field never disturb another. Growth of a managed tuple, defragmentation, sorting and copying preserve all values; an operation refused with insufficient_space leaves every field as it was; a managed tuple never refuses for lack of space within the format limits. The serialised form taken at any moment is self-contained, passes audit and reads the same.',
  ['history', 'inputs'], 'every sequence of operations over every mix of field types, both with and without a schema, in fixed and auto-growing tuples',
  'allocator bugs need particular sequences of sizes freed and allocated; the suite runs a few short fixed ones',
  ['src/gear.cxx', 'src/rw.cxx', 'src/autogrowth.cxx', 'src/managed.cxx', 'fast_positive/tuples/details/rw.h'],
  [('tuple_rw::alloc_data/alloc_loose/release_*/realloc_data/merge_holes/trim_hole', 'src/gear.cxx'), ('tuple_rw::compactify/sort/optimize', 'src/gear.cxx'), ('assign_field_value/insert_field_value/erase', 'details/rw.h')],
  'BOUNDED: random histories of the real code against a reference map with an independent layout checker (5 configurations, about 20 s each; address sanitizer). Not a proof: the allocator invariant quantifies over an unbounded index.', level='exploration')
P('P05', 'Numeric conversions are exact or refused',
  'Storing a number through a generic setter or inserter (set/insert of integer, unsigned, float, number, 128-bit) into a numeric field of any type either stores exactly that value (integers exactly; fractional values truncated toward zero into integer fields; doubles rounded to the nearest float in f32 fields) or throws value_out_of_range and changes nothing: no value is ever wrapped, saturated or silently rounded. Every integer the target type represents is accepted; integers go into floating fields only within the exact range. Non-numeric fields refuse with type_mismatch. Generic getters (integer, unsigned, float, double) return exactly the stored value or throw.',
  ['inputs'], 'every source type, every target type, every value (NaN/Inf excluded: the product is built with -ffast-math)',
  'boundary values of 10 target types by 6 source types, for setters and inserters; tests sample a few',
  ['fast_positive/tuples/details/rw.h', 'src/rw.cxx', 'fast_positive/tuples/details/getter.h'],
  [('accessor_rw::set_integer/unsigned/float/number/int128', 'details/rw.h'), ('tuple_rw::insert_integer/unsigned/float/number', 'src/rw.cxx'), ('accessor_ro::get_integer/unsigned/float/number_as_ieee754double', 'details/getter.h')],
  'All obligations discharged for all inputs. insert_* relies on a contract of alloc_loose.', technique=T)
P('P09', 'Audit admits only tuples that are safe to read',
  'audit() of arbitrary untrusted bytes never reads outside of the given buffer and never crashes. When it accepts, the tuple is consistent: header and size agree, every index item, preplaced value and payload lies inside the tuple, no two payloads overlap, every variable-length value is inside its own size, the sorted flag tells the truth, holes are accounted for when demanded; so every read accessor and iterator stays inside the tuple. Tuples produced by the library are accepted.',
  ['inputs'], 'every byte string of every length, with and without a schema, for every audit demand',
  'the suite audits tuples it has built itself; hostile images differ from these in any of the bytes',
  ['src/audit.cxx', 'fast_positive/tuples/details/audit.h', 'src/ro.cxx', 'src/schema.cxx'],
  [('auditor::check_loose / check_preplaced / check_stretchy', 'src/audit.cxx'), ('tuple_ro::audit / lite_checkup', 'src/audit.cxx'), ('auditor::map_insert', 'src/audit.cxx')],
  'Proved for all inputs: an accepted index item and its payload lie inside the tuple and are registered in the map of used space (check_loose), header checks (lite_checkup), every item of the index is checked (loop invariant of the audit loop), memory safety of all of them. Bounded: map_insert (interval map, all histories of 5 intervals over 7 units and random wide ones), the whole audit() against an independent judge on mutated and random images, all values read under ASan.', technique=TB)
P('P11', 'Arithmetic helpers and decimal text are exact',
  'Byte swapping and endian conversions are exact inverses and give the documented byte order; counting of leading zeros, addition with carry, wide multiplication, absolute value and sign, rounding to a power of two, zero tests of every value size agree with their arithmetic definitions. The decimal text of every signed or unsigned 32/64-bit integer is exactly its digits without leading zeros, never longer than the documented buffer.',
  ['inputs'], 'every value of every operand; every content of the zero-tested areas of each size; all 2^64 integers for the decimal text',
  'tests sample a few values out of 2^64 (or 2^128)',
  ['fast_positive/erthink/erthink_u2a.h', 'fast_positive/erthink/erthink_bswap.h', 'fast_positive/erthink/erthink_endian.h', 'fast_positive/erthink/erthink_clz.h', 'fast_positive/erthink/erthink_carryadd.h', 'fast_positive/erthink/erthink_mul.h', 'fast_positive/erthink/erthink_misc.h', 'fast_positive/tuples/details/utils.h'],
  [('u2a / i2a', 'erthink_u2a.h'), ('h2le / h2be / bswap', 'erthink_endian.h'), ('clz / add64carry_* / mul_*', 'erthink'), ('utils::is_zero / ceil2pow / floor', 'details/utils.h')],
  'All obligations discharged for all inputs (decimal text split by the number of digits; digit terms decided by an integer-arithmetic back end).', technique=T)
P('P12', 'Date and time values keep the moment',
  'A moment given in seconds, milli-, micro-, 100-nano- or nanoseconds, as timespec, timeval or time_t becomes the 32.32 fixed-point moment that is the greatest one not after it; the parts read back (seconds, fraction, nano/micro/milliseconds of a fraction) are exact floors, so that there and back is never ahead and never off by more than one unit. Comparison of moments is the comparison in time. fptu_now() returns the moment of the system clock with exactly the requested low bits cleared, and never uses the coarse clock when it is unusable or coarser than the requested nanoseconds.',
  ['inputs'], 'every count of units (64 bit), every fraction, every time up to 2106, every grain, every clock resolution',
  'a truncation or overflow shows only for particular fractions or large counts',
  ['fast_positive/tuples/types/datetime.h', 'src/time.cxx'],
  [('datetime_t::scale_in/units2fractional/fractional2units/from_*', 'types/datetime.h'), ('fptu_now/fptu_now_fine/fptu_now_coarse', 'src/time.cxx')],
  'All obligations discharged for all inputs. The clock system calls are replaced by an arbitrary clock that succeeds.', technique=T)
P('P14', 'String views compare and index correctly',
  'Two string views are equal exactly when both are nil or both have the same length and bytes; a nil view is distinct from an empty one and is less than any other. The order is total: shorter before longer, equal lengths by bytes (unsigned); all operators, the std::string forms and compare() agree. Equal views hash equally. A view built from pointer and length, from a range, from a C string or a std::string spans exactly those bytes; at() throws out_of_range exactly outside of the view. hexadecimal() gives exactly two digits per byte.',
  ['inputs'], 'every pair of strings up to 300000 bytes, every position of the first difference',
  'tests compare a few short strings',
  ['fast_positive/tuples/string_view.h', 'src/misc.cxx'],
  [('string_view::compare and the operators', 'string_view.h'), ('string_view::at, hexadecimal', 'src/misc.cxx')],
  'Comparison and access proved for all strings up to 300000 bytes (memcmp by contract). Bounded: std::string forms, hash, at(), hexadecimal().', technique=TB)
P('P15', 'A schema finds every definition and only those',
  'Every field defined in a schema, and no other, is found by name, by token, by offset (preplaced) and by loose field descriptor; by_offset(), next_by_offset() and prev_by_offset() give the field at, the nearest after and the nearest before the offset. Tokens are kept sorted: preplaced by offset, then loose ones. A definition is accepted exactly when the name is free and at most 42 bytes long and nothing clashes with it; loose identifiers are given in sequence per type, preplaced fields are laid aligned one after another with the given (or the type\'s empty) initial value in the initial image; counters and the estimated tuple size follow. Opaque structures, and imported preplaced definitions placed below the end of the others, are out of the claim.',
  ['inputs', 'history'], 'every sequence of definitions, every lookup key; every number and layout of the preplaced fields',
  'the suite defines a few fields; the binary search takes other paths for other numbers of fields',
  ['src/schema.cxx', 'fast_positive/tuples/schema.h', 'fast_positive/tuples/token.h'],
  [('schema::search_preplaced/by_offset/next_by_offset/prev_by_offset', 'src/schema.cxx'), ('schema::add_definition/define_*/import_definition/by_loose/get_token/get_name', 'src/schema.cxx')],
  'Proved for all sorted token arrays: search_preplaced() (loop invariant over a ghost rank) and the three lookups by offset against its contract. Bounded against a plain model: definitions, by_loose(), lookups by name and token, image, sizes.', technique=TB)
