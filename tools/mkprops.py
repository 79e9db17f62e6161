#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

p("C01", "The hash map behaves as a finite map for every operation history",
  "For every sequence of put, get, contains, memoize, remove, size and for-each calls, with any hash function consistent with key equality (including constant hashes) and any initial capacity, the hash map returns exactly what a mathematical finite map would return, and for-each visits every present entry exactly once and stops when told to; the same holds with the map's own hash and equality functions for integers and bytes. The reported capacity is never below the requested one nor below the number of entries while memory suffices. When memory cannot be allocated the failing call reports out-of-memory, reports no previous value, does not call the value initialiser and leaves the map's contents unchanged, while a failed growth only affects speed; releasing the map releases exactly the memory it allocated.",
  ["histories", "inputs", "fault_sequences"],
  "all operation histories over small key sets with colliding and non-colliding hashes, with an allocation failure at any step",
  "hashmap_test.c runs one short history with one hash function and no allocation failure; growth, chains, removal inside chains and failures are histories it never samples.",
  ["src/hashmap.c", "include/metac/backend/hashmap.h"],
  [("hashmapPut", "src/hashmap.c"), ("hashmapMemoize", "src/hashmap.c"), ("hashmapRemove", "src/hashmap.c"), ("expandIfNecessary", "src/hashmap.c")],
  ["the public calls declared in " + "include/metac/backend/hashmap.h"])

p("C02", "The recursive task iterator schedules depth-first and reports every outcome",
  "For every history of tasks that add dependencies, change state, finish or fail, the iterator hands control back to a task only when it has no unfinished dependency, runs dependencies in the order they were added and depth-first, and ends exactly when the root task has finished or failed. Input, per-task state and context, nesting level, the inputs of all ancestors and each dependency's output and failure flag are reported unchanged and in order, also when a task adds further dependencies after consuming earlier ones; an allocation failure while adding a dependency is reported and leaves the schedule as it was.",
  ["histories", "schedules", "fault_sequences"],
  "all bounded task trees, orders of add/consume/finish/fail steps and allocation failures",
  "iterator_test.c walks one fixed tree; the orders in which tasks add, consume and re-add dependencies are unbounded.",
  ["src/iterator.c", "include/metac/backend/iterator.h"],
  [("metac_recursive_iterator_next", "src/iterator.c"), ("metac_recursive_iterator_create_and_append_dep", "src/iterator.c"), ("metac_recursive_iterator_dequeue_and_delete_dep", "src/iterator.c")],
  ["the public calls declared in " + "include/metac/backend/iterator.h"])

p("C03", "Base-type values are read, written, compared and copied exactly",
  "For every base type (characters, all integer widths and signs, bool, floats and complex numbers), a value is recognised by the accessor of exactly its own type, reading through that accessor returns the stored number, writing stores exactly that number and changes no other byte, and accessors of every other type refuse with an error and change nothing. Comparing two base-type values reports equal exactly when both have the same type and the same stored value, copying makes the destination equal to the source or refuses for different types, and generic integer reading returns the numeric value of any integer type whenever it fits the result type and refuses numbers that do not fit and non-integers.",
  ["inputs"],
  "all pairs of stored type and accessor type, through any chain of typedefs and qualifiers, over boundary and random bit patterns",
  "value_base_type_test.c uses one value per type; the cross product of types, accessors and boundary bit patterns is not sampled.",
  ["src/value_base_type.c", "src/value.c", "src/entry.c", "include/metac/reflect/value.h"],
  [("metac_value_base_type / metac_value_set_base_type", "src/value.c"), ("per-type accessors", "src/value_base_type.c"), ("metac_value_num", "src/value_base_type.c")])

p("C04", "Bit-field members are read and written exactly and in isolation",
  "For every structure layout with bit-fields of any integer or boolean base type, position and width, reading a bit-field through reflection returns the value the C program stored (sign-extended for signed types) and writing one makes the C program read that value truncated to the field's width, without changing any bit outside the field. Comparing and copying bit-field members (of equal or different position and width, or against plain members of the same type) act on the numeric values.",
  ["inputs", "programs"],
  "all field positions and widths from 1 to 64 bits for all integer types, both debug-info encodings of bit position, over boundary values and surrounding bit patterns",
  "value_bitfields_test.c covers a few hand-picked layouts with narrow fields; wide fields and neighbours' bits are not sampled.",
  ["src/value.c", "src/entry.c"],
  [("bit-field branch of metac_value_base_type / set / equal / copy", "src/value.c"), ("metac_entry_member_bitfield_offsets", "src/entry.c")])

p("C05", "Enumeration values convert exactly to and from numbers and names",
  "For every enumeration (any storage size, signed or unsigned, sparse, duplicate or negative enumerators) reading the value returns the number stored, writing stores that number and nothing outside the object, and the name shown for a value is an enumerator having exactly that value while a value without enumerator is shown as its number. Comparison reports equality of the numeric values, copying transfers the numeric value, and enumerators are listed with their declared names, values and order.",
  ["inputs", "programs"],
  "all enumerator sets over boundary values for every storage size, and all stored values incl. those without an enumerator",
  "value_enum_test.c looks at three small positive enums; packed, negative, unsigned-wide and unnamed values are not sampled.",
  ["src/value.c", "src/entry.c"],
  [("metac_value_enumeration / set_enumeration / enumeration_string", "src/value.c"), ("metac_entry_enumeration_to_name", "src/entry.c")])

p("C06", "Navigation reaches exactly the sub-object the C type declares",
  "For every type built from structures, unions, arrays, pointers, typedefs and qualifiers, navigating by member index or name (through any nesting path), array element index or pointer yields a value whose address, size, name and type are those C assigns to that sub-object, and kind queries see through typedefs and qualifiers and report the qualifiers met on the way. Out-of-range indices, unknown names and navigation of the wrong kind are refused with an error or no value, never a wrong one; overriding an array's element count changes only that value's element count.",
  ["inputs", "programs"],
  "all types up to a bounded nesting depth and all navigation paths and invalid indices on them",
  "entry_test.c and value_array_test.c walk a few fixed types; the set of nested types and paths is unbounded.",
  ["src/entry.c", "src/value.c"],
  [("metac_entry_final_entry / metac_entry_byte_size / metac_entry_by_member_ids", "src/entry.c"), ("metac_new_value_by_member_id / metac_new_value_by_element_id / pointer", "src/value.c")])

p("C07", "C declaration text denotes exactly the described type",
  "For every type, the generated C declaration, with a name put into its placeholder, declares that name with exactly that type under C's declarator rules (nesting of pointers, arrays, functions, qualifiers, typedefs, tagged and anonymous structures, unions and enumerations, variadic functions). Declarations of variables and functions carry their own name, and two different types never yield the same text unless they have the same C spelling.",
  ["inputs", "programs"],
  "all type expressions up to a bounded depth",
  "entry_cdecl_test.c lists a few dozen declarations; declarator nesting is recursive and unbounded.",
  ["src/entry_cdecl.c"],
  [("metac_entry_cdecl", "src/entry_cdecl.c")])

p("C08", "Value text shows exactly the value's contents, shallow or deep",
  "For every value, the rendered text is the C initialiser of that value: every member in order with its name, every array element, integers exactly as stored, floating point in printf's %f form, enumerator names, and pointers as NULL, as an address (shallow mode) or as the rendered pointed-to object (deep mode). Annotations decide how pointers, unions and flexible arrays are shown; a cyclic structure or an object that cannot be rendered yields no text rather than wrong text or endless work, and rendering never modifies the value.",
  ["inputs"],
  "all values of bounded object graphs over a catalogue of types, both modes, with and without annotations",
  "value_string_test.c compares a fixed list of values; graphs, modes and annotations combine without bound.",
  ["src/value_string.c", "src/value.c", "src/value_base_type.c"],
  [("metac_value_string_ex", "src/value_string.c")])

p("C09", "Deep copy produces an isomorphic, independent object graph",
  "For every object graph reachable from a value (trees, shared blocks, interior pointers, cycles, arrays, unions and pointers of unknown type under each handling mode), deep copy either fails and reports failure or makes the destination deeply equal to the source with the same sharing, offsets and cycles, in freshly allocated memory that shares nothing with the source except pointers the mode keeps as plain values. The source is unchanged, tree mode allocates one block per pointer and graph mode one block per distinct source block, all through the caller's allocator, and a type mismatch between source and destination is refused.",
  ["inputs", "configurations"],
  "all object graphs up to a bounded number of blocks over a catalogue of types, every mode combination",
  "value_deep_test.c copies a handful of fixed graphs; graph shapes and mode combinations are unbounded.",
  ["src/value_deep.c", "src/value.c"],
  [("metac_value_copy_ex", "src/value_deep.c"), ("memory map construction", "src/value_deep.c")])

p("C10", "Deep comparison decides equality of object graphs",
  "For every pair of values of the same type, deep comparison answers equal exactly when the reachable object graphs carry the same values, array lengths, null-ness and cycle structure under the selected handling mode, answers not-equal when any reachable value differs, and reports an error (never a wrong verdict) for what it cannot interpret. Comparison is reflexive and symmetric, agrees with deep copy (a copy equals its source and any later change to one side makes them differ), and never modifies either side.",
  ["inputs", "configurations"],
  "all pairs of bounded object graphs over a catalogue of types, every mode combination",
  "value_deep_test.c compares fixed pairs; pairs differing in one reachable leaf at arbitrary depth are unbounded.",
  ["src/value_deep.c", "src/value.c"],
  [("metac_value_equal_ex", "src/value_deep.c")])

p("C11", "Deep free releases every reachable block exactly once",
  "For every object graph reachable from a value through owned memory, deep free releases each allocated block exactly once through the caller's function and releases nothing else, regardless of sharing, interior pointers and cycles, and without reading released memory. If the graph contains something that cannot be interpreted under the selected mode, it reports failure and releases nothing.",
  ["inputs", "configurations"],
  "all object graphs up to a bounded number of blocks over a catalogue of types, every mode combination",
  "value_deep_test.c frees a few fixed graphs; sharing and cycle shapes are unbounded.",
  ["src/value_deep.c"],
  [("metac_value_free_ex", "src/value_deep.c")])

p("C12", "Allocation failure anywhere is reported, leaks nothing and corrupts nothing",
  "For every operation of the library that allocates memory and every position at which an allocation may fail, the operation reports failure (or completes correctly), does not crash, leaves its inputs as they were, releases through the matching function everything it had allocated on the way, and the same operation succeeds when repeated with memory available.",
  ["fault_sequences", "crash_points"],
  "every allocation of every modelled operation (value construction, navigation, rendering, declaration text, deep copy, comparison and release) denied alone and together with all later ones",
  "No test injects allocation failures.",
  ["src/value.c", "src/value_deep.c", "src/value_string.c", "src/entry_cdecl.c", "src/entry_tag.c", "src/value_with_args.c", "src/iterator.c", "src/hashmap.c"],
  [("cleanup paths", "src/value_deep.c"), ("cleanup paths", "src/value_with_args.c"), ("cleanup paths", "src/entry_tag.c")])

p("C13", "Annotation maps resolve to the most specific registered annotation",
  "For every history of registering annotations in an annotation map, looking up an object returns the annotation registered for that object in the highest-priority category that matches, otherwise the map's default, otherwise nothing; an object without a registration of its own takes, in categories that ask for it, the registration of the type its declaration ends in. Registering again for the same object is refused and leaves the first registration in place, unless overriding is requested, which replaces it. Attached data is released exactly once, when its registration is replaced or the map is deleted; data of a refused registration stays the caller's, and lookups never modify the map.",
  ["histories", "configurations"],
  "all registration histories over a small set of objects and categories and all lookups after them",
  "entry_tag_test.c builds one map; order, duplicates, defaults and category priorities are histories.",
  ["src/entry_tag.c"],
  [("metac_tag_map_set_tag / metac_tag_map_tag", "src/entry_tag.c")])

p("C14", "Annotation strings are looked up by key and quoting rules",
  "For every annotation string written in the struct-tag convention (space-separated key:\"value\" pairs with backslash escapes), looking up a key returns the text between the quotes, exactly as written, of the first well-formed pair with exactly that key, and nothing if there is none; ill-formed words are passed over. Quotes escaped by a backslash, colons and spaces inside values never influence which key is found, and lookup never reads past the end of the string.",
  ["inputs"],
  "all strings up to a bounded length over an alphabet of key characters, quote, colon, backslash and space, and all keys",
  "entry_tag_test.c tries a few well-formed strings.",
  ["src/entry_tag.c", "include/metac/reflect/entry_tag.h"],
  [("metac_entry_tag_string_lookup", "src/entry_tag.c")])

p("C15", "Annotation handlers reveal exactly the extents and types they declare",
  "A counted-pointer or counted-array annotation makes exactly the number of elements given by the named sibling member visible, a zero-ended-string annotation makes the characters up to and including the terminator visible, a selector annotation makes exactly the union member chosen by the selector visible, a cast annotation reveals the pointed-to object as the chosen type, and a container annotation reveals the enclosing object at the declared member offset. When the sibling is missing, not a number or holds a number beyond the range of metac_num_t, the selector matches nothing or the pointer is null, the handler reports an error or no content instead of a wrong extent.",
  ["inputs", "configurations"],
  "all sibling/selector values in and out of range, element counts, string lengths and offsets over a catalogue of annotated types",
  "value_deep_test.c and value_string_test.c use each handler with one or two values.",
  ["src/entry_tag.c", "src/value_deep.c", "src/value_string.c"],
  [("metac_handle_count_by / zero_ended_string / union_member_select / ptr_cast / container_of", "src/entry_tag.c")])

p("C16", "Call arguments are captured, stored and shown exactly as passed",
  "For every function signature of supported parameter types (integers of all widths, floating point, bool, pointers, enumerations, structures passed by value, nested variable-argument lists), capturing a call's arguments records each argument in order with its declared name and type and a value equal to what was passed, independent of the caller's later changes, and comparing, copying and rendering captured calls agree with the recorded arguments. An argument storage used directly holds what was appended to it, in order, through any history of appending, changing, emptying, refilling and copying, nested storages included. Types that cannot be captured are refused without side effects, and released storage leaves no memory behind.",
  ["inputs", "programs"],
  "all bounded signatures over the supported parameter types with boundary argument values",
  "value_with_args_test.c captures a fixed list of signatures and values.",
  ["src/value_with_args.c", "src/value.c", "src/value_string.c", "src/value_deep.c"],
  [("metac_value_parameter_wrap / vwrap", "src/value_with_args.c"), ("parameter storage", "src/value_with_args.c")])

p("C17", "printf-style formats describe exactly the variadic arguments consumed",
  "For every printf-style format string, conversions are recognised in order as % followed by flags, decimal width, precision, length (h, hh, l, ll, L) and letter and are reported exactly so; ordinary characters and %% consume no argument, also directly before or after a conversion. Capturing the variadic arguments of a call with such a format records one value per conversion with the C type that conversion consumes and exactly the value passed, including string contents of any length (up to the precision, if one is given); a format with a malformed conversion or one the library does not know is refused, and releasing the captured arguments leaves no memory behind.",
  ["inputs"],
  "all format strings up to a bounded number of conversions and separators, with boundary arguments",
  "printf_format_test.c checks single, isolated conversions; adjacency, %% and long strings are not sampled.",
  ["src/printf_format.c", "include/metac/backend/printf_format.h"],
  [("metac_parse_format_specifier", "src/printf_format.c"), ("metac_new_value_from_format_specifier / vprintf handler", "src/printf_format.c")])

p("C18", "Declaration-location lookup finds exactly the declared entity",
  "For every program that registers reflection data, looking up a variable or function by a declaration location (source file and location name) and its name returns the metadata of exactly the declaration of that name that stands on the location's line in the location's scope, whatever else has the same name or line in other scopes, lines and files. Asking for the metadata of a linked file-scope variable or function, static or global, gives that of its definition, with its address, whatever module of the program asks and whatever other units call their static objects. A file, location or name that is not registered, or that is registered more than once, returns nothing, whatever the number and order of registered entries and whatever prefixes they share.",
  ["inputs", "programs"],
  "all sets of registered locations of bounded size over small file, location and name domains and all queries; random programs of three translation units with nested scopes and shared names and lines",
  "entry_db_test.c looks up a few existing locations in one database.",
  ["src/entry_db.c", "include/metac/reflect/loc.h", "include/metac/reflect/db.h", "modules/metac-reflect-gen"],
  [("metac_db_iterator / entry lookup", "src/entry_db.c")])

p("C19", "Generated reflection data describes the compiled program exactly",
  "For every C program the generator accepts, the generated metadata lists every variable, function and used type, in its scope, with the name, kind, size, member offsets, bit positions, array dimensions, enumerator values, qualifiers, alignments, parameter lists and declaration places the compiler used, so the metadata and the compiled code agree byte for byte. Types that differ are never merged and equal types from several translation units may be merged, and the generated file compiles and denotes the same metadata whenever generation is repeated. Every description names exactly the scopes that list it, and the index of a program holds each description under its own name and nothing else.",
  ["programs", "configurations"],
  "all programs of a bounded grammar of type declarations, functions and translation units, both gcc and clang debug information where available",
  "The Go tests convert one stored example; the property quantifies over programs.",
  ["pkg/metadb", "pkg/dwarfy", "modules/metac-reflect-gen"],
  [("metadb builder and deduplication", "pkg/metadb"), ("reflection templates", "modules/metac-reflect-gen")])

p("C20", "Settings overrides merge key by key with the last override winning",
  "For every list of settings overrides, the merged settings contain for each key path the value of the last override that says something about it, keep every value no override touches, merge nested maps key by key and replace scalars and lists as a whole. An explicit null in an override is honoured as the setting's value, an empty override changes nothing, and the module's own settings are never modified by a merge. An override is JSON when its text begins with '{' and YAML otherwise, and '--file:' reads it from a file; an override that cannot be read makes the whole run fail with an error.",
  ["inputs", "histories"],
  "all sequences of bounded nested maps over small key and value domains, random larger ones, in every text form, and unreadable ones at every position",
  "No test of the merge logic is among the ones that can run here; nested and repeated overrides are unbounded.",
  ["pkg/override", "cmd"],
  [("New / Merge / MergeAll", "pkg/override"), ("GoTemplateInstance.Run", "pkg/module/gotemplate")])

p("C21", "Modules are found by search-path order and never outside it",
  "For every search path and module name, the module run is the one from the first search-path directory that contains a usable module of that name; directories that lack it, or hold one whose specification cannot be read, is of an unknown kind or cannot be loaded, are skipped. Libraries a module includes are searched for in the same order. Names that could leave the search-path directories (path separators, '.' or '..') are refused, and a name found nowhere, a missing library or a working directory that does not exist is reported as an error with a failing exit status and without any output.",
  ["configurations", "inputs"],
  "all assignments of present, missing, malformed and unknown-kind modules and libraries to bounded search paths and all name shapes",
  "pkg/module tests use one fixture directory.",
  ["pkg/module", "cmd"],
  [("Runner.InfoByName / NewInstance", "pkg/module"), ("GoTemplateInstance.Run", "pkg/module/gotemplate"), ("main", "main.go")])

p("C22", "Debug-information dumps are faithful and survive conversion",
  "For every debug-information tree, the in-memory form keeps every entry with its tag, attributes, children order and nesting, whether or not entries carry sibling references, and every entry is reachable exactly once. Converting it to YAML, JSON or generic maps and back, once or repeatedly, yields the same tree with the same attribute values of the same kinds and does not change the original. Generic maps in which an entry lacks its tag or a field lacks its attribute, class or value, or in which something has a wrong type, are reported as errors, as are dumps that end early, go on after their end or have something of a wrong type.",
  ["inputs"],
  "all bounded entry trees with and without sibling references, random larger trees with attributes of every value class, real executables",
  "The dwarfy tests convert one stored example each.",
  ["pkg/dwarfy"],
  [("NewData and YAML/JSON/unstructured conversions", "pkg/dwarfy")])

p("C23", "Depth and breadth of data never limit deep operations",
  "Deep copy, comparison, release and rendering give the same results on chains and trees of arbitrary depth and on arrays and structures of arbitrary breadth as on small ones, using the heap instead of the call stack, so they neither overflow the stack nor lose elements.",
  ["inputs"],
  "object chains and trees whose depth and breadth grow far beyond what the call stack could hold",
  "Tests use graphs of depth below ten.",
  ["src/value_deep.c", "src/value_string.c", "src/iterator.c"],
  [("iterator-driven traversals", "src/value_deep.c")])

p("C24", "Generated test runners run every declared test exactly once",
  "For every program that declares unit tests with METAC_START_TEST in any of its translation units, the test runner generated for it compiles, runs each declared test exactly once and runs nothing else, whatever similar names other variables, functions, types and members have and however often a test's request is declared. The runner's exit status reports success exactly when every declared test passes.",
  ["programs"],
  "all small programs of tests and declarations in two units, random ones in three units with similar names, gcc and clang debug information",
  "The repository has no test of its test generator, and its own runners could miss a test silently.",
  ["modules/metac-test-gen", "include/metac/test.h", "include/metac/reqresp.h", "pkg/metadb"],
  [("request collection and main() template", "modules/metac-test-gen/templates")])

p("C25", "Descriptions of types and functions answer every query as declared",
  "For every declaration - a base type, pointer, array, structure, union, enumeration, typedef, qualified type, variable, member, bit-field, function or parameter - the description reached by any chain of queries reports what the C declaration says: its kind and own name, the type it ends in with all qualifiers met on the way (also when it ends in void), its byte size, a base type's name, encoding and size, what a pointer points to (and whether that is void or an incomplete type), an array's element type and count, an enumeration's enumerators, members by position and by name with their byte and bit positions and widths, a function's parameters by position and by name, whether a parameter is '...' or a va_list, and the result type with zeroed storage for a call's result. Queries that do not apply, out-of-range positions and unknown names are refused, never answered with something else; a copy answers like the original, and overriding a count changes only the count.",
  ["inputs", "programs"],
  "random declarations to nesting depth 4 and every chain of up to 3-4 queries on them, with every refused query in each state",
  "entry_test.c queries a few fixed declarations; chains of queries over all declarations are unbounded.",
  ["src/entry.c", "src/value.c"],
  [("metac_entry_* queries", "src/entry.c"), ("metac_new_value_with_call_result", "src/value.c")])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
