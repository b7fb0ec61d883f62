#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))

RW="fast_positive/tuples/details/rw.h"; GEAR="src/gear.cxx"; GET="fast_positive/tuples/details/getter.h"
p("C01","Read-back: every field returns exactly what was last written to it",
  "After any history of writes, inserts, erasures and maintenance calls, reading a field returns exactly the value of the last successful write to that field, for every supported type and through every way of naming the field. Operations on other fields never change it, wherever its bytes have moved meanwhile.",
  ["histories","inputs"],"every sequence of operations on every mix of field kinds, types, value lengths and buffer sizes",
  "The tests write a handful of values into a few fields; relocation, hole reuse and in-place replacement combine into histories they do not sample.",
  [RW,GET,GEAR,"fast_positive/tuples/details/meta.h","src/rw.cxx"],
  [("write","tuple_rw::assign_field_value in details/rw.h"),("chunk relocation","tuple_rw::realloc_data, alloc_data in src/gear.cxx"),("typed encode/decode","genus_traits<>::write/read in details/meta.h")],
  ["get_*()/set_*() of tuples"],[("area","descriptor index growing down, payload growing up","details/rw.h tuple_rw")])
p("C02","A failed operation leaves the tuple unchanged",
  "When a modifying operation reports an error (wrong type, value out of range, value too long, lack of space, absent or misused field), the tuple afterwards has the same fields with the same values and the same free and reclaimable space as before, and stays fully usable.",
  ["histories","inputs","fault_sequences"],"every failing operation at every point of every history, including lack of space at any allocation",
  "Tests check that the error is raised, not that nothing else moved; a failure in the middle of a relocation needs a particular fill state.",
  [RW,GEAR,"src/rw.cxx","src/autogrowth.cxx"],
  [("allocation failure","tuple_rw::alloc_data/alloc_loose/realloc_data in src/gear.cxx"),("range checks","set_integer/set_number... in details/rw.h")],
  ["exception class and all getters before/after"])
p("C03","Each operation succeeds or fails exactly as documented",
  "An operation that is legal for the field's kind and type, with a representable value and enough unallocated space, succeeds; a misuse is reported with the error that denotes it: type mismatch, value out of range, value too long, absent field, collection misused as a single field or vice versa, no such field. Lack of space is reported only when the unallocated space is really insufficient for the value.",
  ["histories","inputs"],"every operation with every token kind, type and value on every reachable tuple state",
  "The space of (operation, kind, type, value class, fill state) is far larger than the sampled cases.",
  [RW,GEAR,GET,"fast_positive/tuples/details/exceptions.h"],
  [("type check","assign_field_value/append_field/accessor getters"),("space check","alloc_data/alloc_loose in src/gear.cxx")],
  ["exception class thrown by public calls"])
p("C04","Tuples stay structurally valid throughout any history",
  "After any history of operations a writable tuple passes its own validation, and its serialized form is a well-formed tuple by the documented format: every descriptor and every value lies within the tuple, no two values share bytes, and every length agrees with the space it occupies.",
  ["histories","inputs"],"every reachable state of a tuple under every sequence of operations",
  "Tests validate a few final states; corruption typically needs a specific order of erase, shrink and grow steps.",
  [GEAR,"src/audit.cxx",RW,"fast_positive/tuples/details/field.h"],
  [("allocator and hole merging","src/gear.cxx"),("audit","src/audit.cxx")],
  ["validate(), bytes of the taken read-only form"])
p("C05","Space accounting is exact and released space is reclaimable",
  "At every moment the reported counts of fields, index entries, payload, junk, free head and tail space and the netto and brutto sizes agree with the actual contents and add up to the constant capacity; the space of every erased, shrunk or moved value is either returned to the free tail or counted as junk. Compaction turns all junk back into free space, so that fill-and-clear cycles never leak space.",
  ["histories","inputs"],"every reachable state under every sequence of operations",
  "Leaks and double counts appear only for particular neighbourhoods of holes and sizes.",
  [GEAR,RW],[("release and merge of holes","tuple_rw::release_data/release_loose in src/gear.cxx"),("size getters","details/rw.h")],
  ["head_space, tail_space, junk, index_size, payload_size, netto/brutto, loose_count, capacity"])
p("C06","Compaction, index sorting and optimisation preserve the contents",
  "Compacting, sorting the index or optimising a tuple at any moment leaves every field and every collection with the same values (a collection as a multiset), frees all reclaimable space and never invalidates the tuple; repeating it changes nothing more.",
  ["histories","inputs"],"every reachable tuple, every combination and order of maintenance calls",
  "The compactor moves each value; tests run it on a few hand-made layouts only.",
  [GEAR],[("compaction","tuple_rw::optimize in src/gear.cxx"),("sort","index sorting in src/gear.cxx")],
  ["all getters, collections and sizes before/after"])
p("C07","Serialized form carries the same contents and is position independent",
  "The read-only form taken from a writable tuple holds exactly the same fields, values and collections, in a single contiguous block of the announced size, which reads the same after being copied byte-for-byte to any other suitably aligned place, and which can be loaded back into a writable tuple with the same contents that accepts further changes.",
  ["histories","inputs","configurations"],"every reachable tuple, every way of taking or cloning it, every destination",
  "Tests serialize a few tuples; relative references must stay right for all layouts.",
  ["src/ro.cxx","src/managed.cxx",RW,"fast_positive/tuples/details/ro.h",GEAR],
  [("take","tuple_rw::take_asis/take_optimized in src/gear.cxx"),("load","tuple_rw::create_from_ro in src/managed.cxx, rw")],
  ["bytes of read-only form, getters on copies"])
p("C08","Validation accepts all well-formed tuples and protects from malformed ones",
  "For any sequence of bytes whatsoever, validation terminates without touching memory outside of the given bytes and accepts exactly the well-formed tuples; reading all fields of an accepted tuple never touches memory outside of the given bytes. Every tuple produced by the library is accepted, and truncated, extended or damaged tuples are reported instead of being read beyond their ends.",
  ["inputs"],"all byte strings, with and without a schema, of any length",
  "The tests feed a handful of corrupted images; the property quantifies over all byte strings.",
  ["src/audit.cxx","src/ro.cxx","fast_positive/tuples/details/audit.h"],
  [("audit","tuple_ro::audit, audit_tuple... in src/audit.cxx"),("construction with validation","tuple_ro::make_from_buffer in src/ro.cxx")],
  ["validate(ptr, bytes, schema), constructors of read-only tuples"])
p("C09","Absent, null and empty values behave as documented for each kind of field",
  "For every kind of field (preplaced or loose, fixed-size or variable-size) and for both settings of null discernibility, presence tests, reads of absent values, writes of empty, zero and designated-null values, and erasure behave as in the documented table: either the missing value is reported as absent or the natural zero or empty value is substituted, and zeros and empty values are stored or dropped accordingly.",
  ["histories","inputs","configurations"],"all field kinds, types, discernibility settings and values on any history",
  "The documented table has a cell per kind and type; the tests touch a few cells each in one state.",
  ["fast_positive/tuples/token.h",GET,RW,"fast_positive/tuples/details/meta.h","fast_positive/tuples/details/field.h"],
  [("null rules","token_operations::is_discernible_null comment in token.h"),("presence","crtp_getter::have, accessor_ro::exist in details/getter.h"),("designated nulls","genus_traits<>::is_denil in details/meta.h")],
  ["is_present(), get_*(), operator[]"])
p("C10","Collections hold every inserted item in a stable order",
  "A collection holds exactly the items inserted and not erased since, each item once; an insert never disturbs the order of the items already there, and in a tuple without released places the most recently inserted item comes first; sorting may permute items but never loses or duplicates them; erasing one item, a range or the whole collection removes exactly these items and reports their number, and never touches other fields.",
  ["histories","inputs"],"all interleavings of inserts, item updates and erasures over several collections",
  "Tests insert and erase a few items in one order; index entries are shared by all fields and holes.",
  [RW,GET,"src/rw.cxx","src/ro.cxx"],[("insert","tuple_rw::append_field, alloc_loose"),("iteration","collection_iterator_rw/ro, next() scan"),("erase","tuple_rw::erase(collection...)")],
  ["collection(), insert_*(), erase()"])
p("C11","Iterating a whole tuple visits each present field exactly once",
  "Walking a tuple with its iterators visits every present preplaced and loose field exactly once, apart from positions which report themselves as released; each visited position names the right field with its value, loose fields come oldest first, and walking backwards visits the same positions in the reverse order.",
  ["histories","inputs","configurations"],"all reachable tuples, with and without schema, both directions and both increment forms",
  "Tests iterate over a few small tuples; gaps, holes and empty fields combine freely.",
  ["src/ro.cxx","fast_positive/tuples/details/ro.h",RW,"src/schema.cxx"],
  [("iterators","field_iterator_ro, loose_iterator_ro in details/ro.h"),("preplaced neighbours","schema::next_by_offset/prev_by_offset in src/schema.cxx")],
  ["begin/end, begin_loose/end_loose, ++/--"])
p("C12","Numeric conversions give the right value or a range error, never a wrong number",
  "Writing a finite number of any integer or floating type into any numeric field either stores the mathematically nearest representable value allowed for that conversion (exact for integers, towards zero when a fraction goes into an integer field, nearest for narrowing floats) or reports that the value is out of range; reading through a wider or generic accessor returns exactly the stored number or reports an error. A value is never silently wrapped, truncated in magnitude or changed in sign.",
  ["inputs"],"all finite values of all source types against all numeric field types, for single fields and collections",
  "The input space is 2^64 per conversion pair with boundaries at each type's limits.",
  [RW,"src/rw.cxx",GET],[("checked setters","set_integer/set_unsigned/set_number/set_float in details/rw.h"),("inserts","insert_* in src/rw.cxx"),("generic getters","get_integer/get_unsigned/get_float/get_number_as_ieee754double in details/getter.h")],
  ["set_*/insert_*/get_* results"])
p("C13","A schema is a faithful dictionary of non-overlapping fields",
  "Every defined name resolves to its own field and back, names stay unique and within the length limit, fields of the same schema never share identity or preplaced bytes, alignment and order of definition are respected, and a rejected definition changes nothing. Lookups by offset and neighbourhood agree with the layout.",
  ["histories","inputs"],"all sequences of definitions and imports, valid and invalid",
  "Tests define a few fixed schemas.",
  ["src/schema.cxx","fast_positive/tuples/schema.h"],[("definitions","schema_impl::define_*/import_definition/add_definition"),("lookups","get_token*, get_name*, by_offset...")],
  ["define_*, import_definition, get_token, get_name, by_offset, tokens()"])
p("C14","New and reset tuples start with exactly the initial contents",
  "A newly created tuple, and any tuple after a reset, whatever its history, holds no loose fields, has each preplaced fixed-size field equal to its declared initial value (by default zero, or absent when its null is discernible), each variable-size preplaced field empty, no junk and all remaining space available.",
  ["histories","inputs","configurations"],"all schemas and initial values, resets at any point of any history",
  "Tests reset one tuple in one state.",
  ["src/schema.cxx",GEAR,RW],[("initial image","schema preplaced_init_image"),("reset","tuple_rw::reset in src/gear.cxx")],["getters and sizes after construction/reset()"])
p("C15","Managed tuples share buffers safely and snapshots never change",
  "A managed read-only tuple keeps its contents and its memory for as long as any copy, nested view owner or moved-to object refers to it, regardless of what happens to the writable tuple it came from or to other copies; the memory is released exactly once when the last owner goes away. Moving leaves the source empty.",
  ["histories"],"all interleavings of copy, move, swap, clone, purge, take and further writes over several handles",
  "Ownership errors show up only for particular orders of handle operations, often only as use-after-free.",
  ["src/managed.cxx","fast_positive/tuples.h","src/1Hippeus"],[("reference counting","hippeus::buffer add_reference/detach"),("moves","tuple_ro_managed/tuple_rw_fixed constructors and assignments in src/managed.cxx")],
  ["contents via handles, buffer alive/reference behaviour, allocator balance"])
p("C16","Managed read-only tuples may be shared between threads",
  "Threads that concurrently copy, assign, read, nest-view and drop managed read-only tuples referring to the same buffer always see the same contents, and the buffer is released exactly once, after the last reference is gone, under every interleaving; a tuple becomes writable in place only when no other thread refers to its buffer. The last error of the C interface is each thread's own.",
  ["schedules"],"all interleavings of handle operations of several threads on shared buffers",
  "Single-threaded tests cannot observe lost reference counts.",
  ["src/managed.cxx","fast_positive/tuples/1Hippeus/buffer.h","src/1Hippeus","src/compat_common.cxx"],[("atomic reference counter","hippeus::buffer")],
  ["number of releases, contents read by each thread"])
p("C17","Growing tuples behave like fixed ones, only without running out of space",
  "A growing tuple gives for any history the same results and contents as a sufficiently large fixed one; it grows when and only when needed, growth preserves every field, collection and iteration order, and only exceeding the format's overall limits is reported, leaving the tuple unchanged.",
  ["histories","inputs"],"all histories with any initial capacity up to the format limits",
  "Growth happens at particular fill states inside particular operations.",
  ["src/autogrowth.cxx","src/managed.cxx"],[("growth","tuple_rw_managed::manage_space_deficit and retry loops in src/autogrowth.cxx")],
  ["contents and results of tuple_rw_managed vs model"])
p("C18","The C interface agrees with the tuple contents and reports proper codes",
  "Upserting, updating, inserting, reading and compacting through the C interface have the same meaning as in the data model: update changes only an existing field and reports a missing one, upsert sets one field of the column and type or adds it, insert always adds, other fields stay intact, reads return the stored value, or the empty value of the type when there is none (which only reading of a C string reports as an error), and each failure (invalid column, missing field, lack of space, malformed nested tuple) returns its own code, leaving the tuple unchanged.",
  ["histories","inputs"],"all sequences of C calls over columns and types, including lack of space",
  "Tests check chosen sequences on fresh tuples.",
  ["src/compat_rw.cxx","src/compat_ro.cxx","src/compat_field.cxx","src/compat_common.cxx"],[("wrappers","fptu_upsert_*/insert/update/get in src/compat_*.cxx"),("error mapping","src/compat_common.cxx")],
  ["return codes and values of fptu_* calls"])
p("C19","C lookups, filters, counts and erasures select exactly the matching fields",
  "Looking up, stepping through, counting and erasing fields by column and type or filter finds exactly the live fields that match, each once and in a consistent order, and erased fields are never found again. Erasing by a filter removes all of the matching fields and by an exact type one of them, the returned number is of actually removed fields, and columns beyond the limit match nothing.",
  ["histories","inputs"],"all tuples, columns, types and filters",
  "Tests use a few columns and filters on a small tuple.",
  ["src/compat_ro.cxx","src/compat_rw.cxx","src/compat_field.cxx","src/compat_common.cxx"],[("matching","fptu_lookup*/first/next/field_count/erase and filter masks")],
  ["fptu_lookup_*, fptu_first/next, fptu_field_count_*, fptu_erase"])
p("C20","Accelerated index scans give the same answer as the plain scan",
  "For every index content, length, alignment and wanted field each accelerated variant of the index search finds the same entry as a plain sequential search (the first of matching ones), whatever surrounds the index in memory and whatever mode the FPU is in, and never touches inaccessible memory around the index.",
  ["inputs","configurations"],"all index arrays, lengths 0..N, start alignments, needles and CPU variants",
  "Block-wise code differs by length modulo block and by position of matches; tests sample few.",
  ["src/scan_portable.cxx","src/scan_SSE2.cxx","src/scan_AVX.cxx","src/scan_AVX2.cxx","src/scan_ifunc.cxx"],[("variants","fptu_scan_*")],["result of each scan variant"])
p("C21","Nested tuples are carried intact and stay usable on their own",
  "A tuple stored in a field of another tuple reads back with identical contents at any nesting depth and after any later change, compaction or serialization of the outer tuple, and the extracted view is itself a valid tuple.",
  ["histories","inputs"],"all inner tuples, depths and outer histories",
  "Tests nest one small tuple once.",
  [RW,"fast_positive/tuples/details/ro.h","src/ro.cxx","src/compat_rw.cxx"],[("nested copy","genus_traits<nested>"),("views","get_nested_weak/managed")],["get_nested*, fields of the view"])
p("C22","Date and time conversions are exact or consistently rounded",
  "Converting counts of seconds, milli-, micro-, nanoseconds or 100-nanosecond ticks (and their sub-second parts) to 32.32 fixed-point time stamps, and the fractions of stamps back to such sub-second parts, gives exactly the mathematical quotient rounded down, so whole seconds are exact and order is kept; seconds as a floating number are the nearest double; comparing agrees with the numeric order; the current time lies between the clock readings around the call, with the requested low bits cleared.",
  ["inputs"],"all time stamps and all sub-second values",
  "The domain is 2^64 stamps and 10^9 nanoseconds; tests check a few and random ones.",
  ["src/time.cxx","fast_positive/tuples/types"],[("fixed-point conversion","datetime_t conversions")],["datetime_t static and member functions"])
p("C23","Integer to text conversion yields exactly the canonical decimal digits",
  "Converting any integer to decimal text produces exactly its shortest decimal representation with sign, without writing outside of the announced room, and returns its exact end.",
  ["inputs"],"all 64-bit signed and unsigned integers",
  "2^64 inputs; digit-count boundaries matter.",
  ["fast_positive/erthink/erthink_u2a.h"],[("digits","erthink::u2a/i2a")],["text and end pointer"])
p("C24","Field tokens faithfully encode kind, type, identity and options",
  "A token built from a field's kind, type, identity or offset and options reports back exactly these attributes; two tokens denote the same field exactly when kind, type and identity or offset agree, independent of options (collection, discernible null, saturation), which equal hashes and a strict total order respect (preplaced first, by offset, then loose ones by type and identity), while plain equality also compares the options; changing an option changes nothing else; invalid attributes are rejected.",
  ["inputs"],"all combinations of type, identity, offset, size and options",
  "Bit-packing errors need particular corners of ranges.",
  ["fast_positive/tuples/essentials.h","fast_positive/tuples/token.h","fast_positive/tuples/details/field.h"],[("bit layout","make_tag/tag2*/tag_bits in details/field.h, essentials.h")],["token accessors, comparison, same()"])
p("C25","Comparing of binary values in the C interface is a consistent total order",
  "Comparing of binary values (fptu_cmp_binary, and of fields with given values by fptu_cmp_96/128/160/256/opaque) agrees with the lexicographic order of unsigned bytes and lengths, so it is antisymmetric and transitive, reports equality exactly for equal contents, and a missing field is incomparable (a missing opaque one is equal to the empty value).",
  ["inputs","histories"],"all pairs and triples of values and of tuples built in any order",
  "Order laws quantify over triples and construction histories.",
  ["src/compat_common.cxx","src/compat_field.cxx","src/misc.cxx","fast_positive/tuples/legacy.h"],[("comparators","fptu_cmp_*")],["fptu_cmp_binary, fptu_cmp_96/128/160/256, fptu_cmp_opaque"])
p("C26","String views behave as the byte sequences they refer to",
  "A string view behaves as the immutable byte sequence it refers to, including embedded zeros, empty and nil views: length, indexing, checked access, iteration in both directions and conversions from and to strings give exactly its bytes; the comparisons form a consistent total order which takes the length first, then unsigned bytes (nil precedes empty), also against std::string; equal contents give equal hashes.",
  ["inputs"],"all byte strings and positions",
  "Tests compare strings over a few letters.",
  ["fast_positive/tuples/string_view.h","src/misc.cxx"],[("comparison and access","string_view members"),("checked access","string_view::at in src/misc.cxx")],["string_view public members"])
p("C27","Declared capacity is honoured",
  "A tuple created for a given number of fields and amount of data accepts any fields and values that fit this declaration before reporting lack of space, requests beyond the format limits are rejected with an error, and the estimates of required space are always sufficient for what they estimate.",
  ["inputs","configurations"],"all declared numbers of fields, data sizes and schemas",
  "Tests allocate a few sizes.",
  [RW,"src/managed.cxx","src/compat_rw.cxx"],[("estimates","estimate_required_space, fptu_space, fptu_get_buffer_size"),("construction","tuple_rw constructors")],["head_space/tail_space after creation, outcome of fills"])
p("C28","No operation touches memory outside of the buffer it was given",
  "With tuples living in caller-supplied or exactly-sized buffers, no operation reads or writes outside of the buffer and the passed values, for every history, value length and alignment allowed by the interface.",
  ["histories","inputs"],"all histories, value lengths and buffer sizes",
  "Out-of-bounds accesses go unnoticed without red zones around exactly-sized buffers.",
  [GEAR,RW,"src/compat_rw.cxx","src/managed.cxx","src/ro.cxx"],[("allocator","src/gear.cxx"),("copying of values","genus_traits<>::write")],["red zones around buffers and sources"])
p("C29","Floating-point numbers as text read back as the very same number",
  "The decimal text of any finite double, in each of the offered forms (fast and accurate shortest-like, and the human-friendly one), is a well-formed number with the right sign that any correct reader converts back to exactly the same double, fits the announced number of characters, and infinities and not-a-numbers are named as such.",
  ["inputs"],"all 2^64 doubles",
  "2^64 inputs; failures concentrate at boundaries of gaps between doubles which samples rarely hit.",
  ["fast_positive/erthink/erthink_d2a.h"],[("conversion","erthink::grisu::convert, make_digits, cached_power"),("printers","ieee754_default_printer, shodan_printer")],["text and its end from d2a_fast/d2a_accurate/shodan_printer"])
p("C30","Time stamps and binary data as text name exactly what they hold",
  "The text of any time stamp is the UTC calendar date and time of day (YYYY-MM-DDZhh:mm:ss with nine digits of the fraction) nearest to the stamp within half a nanosecond, with carries through seconds, minutes, days, leap days and years; the hexadecimal text of bytes has exactly two digits per byte in order; types have distinct names.",
  ["inputs"],"all 2^64 time stamps and all byte sequences",
  "2^64 stamps; roundings up to the next second, day or year and leap days are rarely hit by samples.",
  ["src/debug.cxx","src/misc.cxx"],[("text of stamps","std::to_string(datetime_t)"),("hexadecimal text","fptu::hexadecimal"),("names of types","std::to_string(genus)")],["the returned text"])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
