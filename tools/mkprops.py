#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": ["Source/" + f for f in files],
         "mechanism": [{"name": n, "where": "Source/" + w} for n, w in mech],
         "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": "Source/" + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Shared pointers destroy an object exactly once, when its last owner goes",
  "For every sequence of creating, copying, moving, assigning, casting, clearing and detaching shared pointers (and reference-counted COM pointers), including self-assignment, assigning from a pointer stored inside the object being released, clearing the pointer through which an object owns itself, and destructors that clear or inspect the very pointer being assigned, an object is destroyed exactly once and exactly at the step in which its last owner goes away. A pointer that is non-empty always refers to an undestroyed object, moved-from and cleared pointers are empty, and a successful cast shares ownership with its source while a failed cast is empty. Detaching gives the raw object back without destroying it and leaves that pointer empty, the other owners being unaffected.",
  ["histories"], "all finite histories of pointer operations over any number of pointer variables, objects and pointer-valued fields of those objects",
  "The tests run about a dozen fixed histories over one or two pointers with a plain object; pointers held inside owned objects, chains, cycles, detaching with other owners alive and mixed move/cast histories are not reached.",
  ["Primitives/Pointer.h", "Basic.h"],
  [("copy/move construction and assignment adjust the counter and steal or share the four fields", "Primitives/Pointer.h"), ("deletion when the counter reaches zero through the original destructor", "Primitives/Pointer.h")],
  ["public pointer operations", "destructor calls of the pointed-to objects"],
  [("counter", "number of owners", "Primitives/Pointer.h")])
p("C02", "Shared ownership is safe under every interleaving of threads",
  "When threads copy, move, assign and drop their own shared pointers, COM pointers or strings that refer to the same object or text, then under every interleaving the object or text is released exactly once, by the step that drops the last owner. No thread ever reads an object or text after it was released, and nothing is leaked once all owners are gone.",
  ["schedules"], "all interleavings of the atomic steps of any number of threads, each working on its own pointer/string variables",
  "No existing test creates a second thread, so no schedule other than the sequential one is ever run.",
  ["Basic.h", "Primitives/Pointer.h", "Strings/String.h"],
  [("atomic increment/decrement of the shared counter and the decision taken on the value it returns", "Basic.h"), ("release on zero", "Primitives/Pointer.h"), ("string buffer release on zero", "Strings/String.h")],
  ["atomic counter accesses", "object destructor", "buffer release"])
p("C03", "Lists and arrays behave as mathematical sequences",
  "After any history of construction, resizing, adding, inserting, assigning, removing, clearing, copying and moving, the contents of a list or array equal the mathematical sequence obtained by applying the same operations, whatever the element type and however often storage grew or shrank. Values passed in may refer to elements of the same container. An operation with an index or range outside the sequence raises an error and changes nothing, and searches return the first matching position or -1.",
  ["histories", "inputs"], "all finite histories of list and array operations over all element values, indices and counts",
  "The tests use a few integer lists with a handful of operations each; removal and insertion across capacity changes, self-referencing arguments, negative counts and non-trivial element types in long histories are not reached.",
  ["Collections/List.h", "Collections/Interfaces.h"],
  [("shift-and-construct on insert, shift-and-destroy on remove", "Collections/List.h"), ("capacity growth and shrink policies", "Collections/List.h"), ("range checks before mutation", "Collections/List.h")],
  ["return values, raised errors and contents after each call"])
p("C04", "Containers construct and destroy every element exactly once",
  "For every history of operations on a list, array, sorted list, dictionary or group, each element object is constructed before use and destroyed exactly once, no operation reads an element that is destroyed, and the number of live element objects equals the number of elements the containers hold (for keyed containers, keys plus values). Moving a container moves its elements without duplicating or losing any and leaves the source empty, and destroying all containers leaves no element and no storage behind, including when an operation raised an error.",
  ["histories"], "all finite histories of container operations over element types with non-trivial construction, copy, move and destruction",
  "The existing tests observe contents only; no test counts constructions and destructions of elements or watches for reads of dead elements through a history.",
  ["Collections/List.h", "Collections/Dictionary.h"],
  [("placement construction, move and destruction of ranges of elements in raw buffers", "Collections/List.h"), ("ownership of per-key value lists", "Collections/Dictionary.h")],
  ["constructor/destructor calls of the element type", "live allocation after teardown"])
p("C05", "Sorted lists stay sorted and agree with a multiset",
  "After every history of additions, removals, removals by position or range, copies, moves and clears, a sorted list is in non-decreasing order and holds exactly the multiset of values added and not removed. The position returned by an addition holds the added value, a search returns a position holding an equal value if and only if one is present and -1 otherwise, and removing a value removes exactly one equal value and reports whether there was one.",
  ["histories", "inputs"], "all finite histories of sorted-list operations over all values, including duplicates and every list length",
  "The tests add about ten integers in a few orders; binary-search boundaries at all lengths, duplicates and copies or moves of sorted lists in longer histories are not reached.",
  ["Collections/List.h"],
  [("binary search and the insertion position derived from it", "Collections/List.h"), ("removal through search", "Collections/List.h")],
  ["return values and contents after each call"])
p("C06", "Dictionaries behave as finite maps with ordered keys",
  "After every history of adding, setting, removing, clearing and moving, a dictionary associates each key with the value most recently stored for it and with nothing else, and keys and values enumerate in the same, ascending key order. Adding an existing key and reading a missing key raise an error and change nothing; setting a key replaces only that key's value; removing reports whether the key was present.",
  ["histories", "inputs"], "all finite histories of dictionary operations over all keys and values",
  "The tests build small dictionaries once and read them back; error paths, repeated replace/remove histories, self-referencing values and moves followed by modification are barely sampled.",
  ["Collections/Dictionary.h", "Collections/List.h"],
  [("keys in a sorted list, values in a parallel list at the same index", "Collections/Dictionary.h")],
  ["return values, errors and the enumerated key-value sequence"])
p("C07", "Groups behave as ordered multimaps without empty keys",
  "After every history of adding and removing pairs and keys, clearing and moving, a group associates every key with the sequence of values added for it in order of addition, minus those removed; a key is present if and only if it has at least one value, and keys are in ascending order. Removing reports whether something was removed, reading a missing key raises an error, and joining two groups reports every key of either group exactly once, in ascending order, as shared (with the values of both sides) or as belonging to one side only (with its values).",
  ["histories", "inputs"], "all finite histories of group operations, and all pairs of groups",
  "The tests build a group of at most a few keys; interleaved removals down to empty keys, missing values, and joins of groups with arbitrary key overlap are not reached.",
  ["Collections/Dictionary.h"],
  [("per-key value list deleted when its last value goes", "Collections/Dictionary.h"), ("merge of the two sorted key sequences", "Collections/Dictionary.h")],
  ["return values, errors, enumerated contents, join callbacks"])
p("C08", "Enumerators and their clones visit each element once, in order",
  "For every collection and lazy sequence in the library, an enumerator that is advanced repeatedly yields the elements of the collection in order, each exactly once, together with their positions 0, 1, 2, ..., and reports the end exactly after the last one. A clone starts at the position of its original, yields the same remaining elements and afterwards neither affects nor is affected by it; resetting makes an enumerator start over from the beginning. Range-based loops, with or without index, visit the same elements in the same order. Once all enumerators are released nothing of them stays allocated.",
  ["histories", "inputs"], "all collections and operator compositions, and all interleavings of advancing, reading, cloning and resetting any number of enumerators",
  "The tests advance enumerators from start to end; cloning or resetting part-way is only exercised for a few of the roughly thirty enumerator kinds.",
  ["Collections/Interfaces.h", "Collections/List.h", "Collections/Dictionary.h", "Collections/Operation.h", "Collections/OperationForEach.h", "Collections/OperationSequence.h", "Collections/OperationConcat.h", "Collections/OperationSelect.h", "Collections/OperationWhere.h", "Collections/OperationPair.h", "Collections/OperationSet.h", "Collections/OperationString.h", "Collections/OperationEnumerable.h"],
  [("each enumerator's position state, and how Clone/Next/Reset treat it", "Collections/")],
  ["Next/Current/Index/Clone/Reset of every enumerator kind"])
p("C09", "Lazy sequence operators compute the corresponding sequence algebra",
  "For every source sequence and every composition of lazy operators (project, filter, concatenate, take, skip, repeat, distinct, reverse, zip, set operations, order, group, flatten, evaluate, aggregates and quantifiers), the elements produced are exactly those of the mathematical definition of the composition, in that order. The same lazy sequence can be enumerated any number of times with the same outcome, the source is never modified, a lazily bound sequence calls no function until it is read and follows its source, a sequence that was evaluated is read without calling any function again (taking its elements if it was a calculation, referring to the same elements if not), a copy evaluated by force does not change when its source does later, and aggregates without a default raise an error on an empty sequence. Once the sequences are released nothing of them stays allocated.",
  ["inputs", "programs"], "all source sequences and all compositions of operators",
  "Each operator is tested alone, once, on one ten-element integer sequence; compositions, empty and boundary inputs, repeated enumeration and later modification of the source are not reached.",
  ["Collections/Operation.h", "Collections/OperationSequence.h", "Collections/OperationConcat.h", "Collections/OperationSelect.h", "Collections/OperationWhere.h", "Collections/OperationPair.h", "Collections/OperationSet.h", "Collections/OperationEnumerable.h"],
  [("each operator's enumerator and factory", "Collections/Operation.h")],
  ["elements produced by enumerating the lazy sequence"])
p("C10", "Sorting yields an ordered permutation of its input",
  "Sorting any array under any total or weak ordering comparator rearranges it into a permutation of itself in which no element is ordered before its predecessor, including inputs with many equal elements and already sorted or reversed inputs. Ordering a lazy sequence produces that same result without touching its source, and a comparator that declares two elements unordered makes the sort raise an error instead of silently producing a wrong order.",
  ["inputs"], "all arrays, lengths and strong/weak/partial comparators",
  "The tests sort three fixed ten-element arrays with the natural order.",
  ["Collections/Operation.h"],
  [("quick-sort partition and recursion", "Collections/Operation.h")],
  ["array contents after the call", "raised error"])
p("C11", "Dependency ordering partitions nodes and puts dependencies first",
  "For every set of nodes and every dependency relation over them, the computed components partition the nodes, two nodes share a component if and only if each reaches the other through dependencies, and every component appears after all components its members depend on. Adjacency reported for a node is exactly its direct dependencies and dependents, and for class-wise ordering the same holds of the relation induced on the classes. Initialising or sorting a second time raises an error.",
  ["inputs"], "all finite directed graphs, given by any of the supported input forms",
  "The tests use about ten hand-made graphs of at most a dozen nodes; there are 65536 graphs over four nodes alone.",
  ["Collections/PartialOrdering.h", "Collections/PartialOrdering.cpp"],
  [("depth-first visits in both edge directions assigning components", "Collections/PartialOrdering.cpp"), ("node adjacency arrays", "Collections/PartialOrdering.h")],
  ["components and nodes after sorting"])
p("C12", "Strings are immutable values equal to their character sequence",
  "For every history of building, copying, moving, slicing, removing, inserting and concatenating strings, of every character type, each string equals the character sequence defined by those operations, and no operation on one string ever changes the text of another, although text storage is shared. Operations whose position or length falls outside the string raise an error, the exposed buffer is zero-terminated at the string's length without altering its value, comparison is lexicographic and agrees with equality, and storage is released when its last user goes and not before.",
  ["histories", "inputs"], "all finite histories of string operations over all texts, positions and lengths, and all character types",
  "The tests slice and join one or two literals; aliasing between slices, buffers of sub-strings, operations on results of operations and out-of-range arguments are sampled by single examples.",
  ["Strings/String.h", "Strings/String.cpp"],
  [("shared counted buffer with start and length", "Strings/String.h"), ("re-materialisation when a terminated buffer is requested", "Strings/String.h")],
  ["text, length, buffer and comparison results of every live string after each step"])
p("C13", "Unicode conversions round-trip and reject ill-formed input",
  "For every sequence of Unicode scalar values, encoding to UTF-8, UTF-16 (either byte order) or UTF-32 yields the standard encoding, and decoding yields back the original sequence, through the whole-string conversions as well as the incremental readers and encoders. Ill-formed UTF-8 and UTF-16 (bad lead or continuation units, truncated or overlong sequences, lone or encoded surrogates) never decodes to a value: conversion stops at the first ill-formed sequence, and decoding always terminates. A surrogate is never encoded, and a value above U+10FFFF never to UTF-16 (UTF-8 is the up-to-six-byte definition that covers 31-bit values, as the existing tests require; the two UTF-32 types pass their units on to each other unchanged). Narrow text is converted as the locale defines it (in a UTF-8 locale, as UTF-8) as a whole, giving the empty text if it cannot be. While reading, the reported source position and length of each character delimit exactly the code units it came from.",
  ["inputs"], "all sequences of scalar values and all sequences of code units, in every encoding",
  "The tests convert three fixed texts; there are 1,112,064 scalar values and unboundedly many ill-formed inputs, none of which is tried.",
  ["Strings/Conversion.h", "Strings/Conversion.cpp", "Strings/String.cpp"],
  [("per-encoding From32/To32", "Strings/Conversion.cpp"), ("incremental readers with source clusters", "Strings/Conversion.h"), ("reader/writer states for incremental byte order conversion", "Strings/Conversion.h")],
  ["converted code units, return counts, errors, reader positions"])
p("C14", "Number/text conversion is exact over the whole range",
  "For every integer of every supported width and sign (32-bit for the parsers named i and u, 64-bit for the others and for all formatters), converting to text gives its canonical decimal form, and parsing that text gives the integer back with success reported. Parsing reports success if and only if the text is the canonical form of a value in range (as determined by converting the parsed value back), in every text type alike. Decimal fractions are exact within the precision of a double and the six decimals that are printed: text with at most nine digits before and six after the point, or an integer of at most fifteen digits, is accepted and printed back as that number without superfluous zeros, and text that is not a number, the empty text included, is not accepted. Converting case changes exactly the letters that have a counterpart, keeps the length, and is the identity on characters without case, for texts without embedded zero characters.",
  ["inputs"], "all integers of each width, all texts",
  "The tests convert a handful of constants per type; there are 2^64 values and unboundedly many texts.",
  ["Strings/String.cpp", "Strings/String.h"],
  [("digit conversion and strtol-family parsing with round-trip comparison", "Strings/String.cpp"), ("case mapping per character", "Strings/String.cpp")],
  ["converted text and value, success flag"])
p("C15", "Events call every attached handler exactly once per raise",
  "For every history of attaching, detaching and raising, a raise calls each handler attached at that moment exactly once, with the arguments of that raise, and calls no detached handler; the order of calls is not specified. Handlers may themselves attach, detach (including themselves) and raise: a handler detached before its turn is not called, one attached during a raise is not called by it, and a running handler is not destroyed. Detaching succeeds exactly once per attachment, the same function attached twice is called twice, and a handler stays attached and alive until it is detached or the event goes away.",
  ["histories"], "all finite histories of attach, detach and raise over any number of handlers, including attaching to several events",
  "There is no test of events in the repository at all.",
  ["Primitives/Event.h"],
  [("sorted list of shared handlers", "Primitives/Event.h")],
  ["calls received by handlers, return value of detaching, handler liveness"])
p("C16", "Function objects call exactly the callable they were built from",
  "For every function object, however it was built (free function, method with its object, lambda, copy, move, conversion from a function object of a compatible type), a call invokes exactly the callable it was last assigned, once, with the same arguments, preserving reference arguments and move-only arguments, and returns its result. Copies share the same callable state and compare equal, moved-from and cleared ones are empty, converting an empty one gives an empty one, and the captured state is destroyed exactly once, when the last copy goes.",
  ["histories", "programs"], "all histories of construction, assignment, comparison and call over all supported callables and signatures",
  "The tests build each kind once and call it; histories of copies, moves, conversions and empties, and lifetimes of captured state are not reached.",
  ["Primitives/Function.h"],
  [("shared invoker objects", "Primitives/Function.h")],
  ["calls received, results, equality, captured-state destruction"])
p("C17", "Optional values hold exactly the last value assigned, or nothing",
  "For every history of construction, copying, moving, assigning, clearing and swapping of optional values, an optional holds exactly the value last assigned to it or nothing, reports that truthfully, and moving empties the source. Each held value is constructed and destroyed exactly once and nothing that is not held is ever read or destroyed; comparison orders nothing before every value and otherwise follows the values.",
  ["histories"], "all finite histories of optional-value operations, over all value types",
  "The tests compare about ten constants and check a few copies; object lifetimes inside optionals are never observed.",
  ["Primitives/Nullable.h"],
  [("in-place storage with a validity flag", "Primitives/Nullable.h")],
  ["content and emptiness after each step, constructor/destructor calls of the value"])
p("C18", "Variants hold exactly one alternative, the one last assigned",
  "For every history of construction, copying, moving, assigning (the same or another alternative) and visiting, a variant holds exactly one alternative: the type and value last assigned. Reading the held type gives that value, reading another type raises an error or gives nothing, visiting invokes exactly the branch of the held type, and each held value is constructed and destroyed exactly once, at an address its type allows.",
  ["histories"], "all finite histories of variant operations, over all lists of alternative types",
  "The tests build variants of plain values once each; changes of alternative over histories and lifetimes of held objects are barely sampled.",
  ["Primitives/Variant.h"],
  [("storage plus index, per-alternative copy/move/destroy tables", "Primitives/Variant.h")],
  ["index, content, visited branch, constructor/destructor calls"])
p("C19", "Global storages initialise on demand once and finalise exactly once",
  "For every history of accessing, initialising and finalising global storages one by one or all together, a storage is initialised exactly once before its first use after start or after it was finalised, also when its initialiser uses other storages, and every access until it is finalised sees that same object. Whether it is initialised is reported truthfully. Finalising everything finalises each initialised storage exactly once and no uninitialised one, also when finalisers finalise other storages or each other, what is still initialised when the program ends is finalised then, and storages can be initialised again after finalisation.",
  ["histories"], "all finite histories of access, initialise, finalise and finalise-all over any number of storages, also storages whose initialisers use each other",
  "The only test accesses one storage once.",
  ["GlobalStorage.h", "GlobalStorage.cpp"],
  [("registration list and initialised flag per storage", "GlobalStorage.cpp")],
  ["initialiser/finaliser calls, object identity, initialised flag"])
p("C20", "The test framework reports success only if every test passed",
  "For every program of test files, nested categories and cases with passing assertions, failing assertions and raised errors, under every option set, the framework runs exactly the selected files, in each of them every category and case body once, and reports each as passed if and only if nothing in it failed. The overall result is success if and only if all selected files passed, a failure in one case does not keep the following cases from running, and misuse (assertion outside a case, nesting inside a case, unknown options) is reported as an error and never as a pass.",
  ["programs", "configurations"], "all finite trees of files, categories and cases with any mix of outcomes, and all command lines",
  "The framework's own tests only contain passing programs; a failing file, a failing sibling before a passing one, filters and misuse are never run.",
  ["UnitTest/UnitTest.h", "UnitTest/UnitTest.cpp", "UnitTest/UnitTest.Linux.cpp", "Console.cpp"],
  [("context tree with failure propagation and passed counters", "UnitTest/UnitTest.cpp"), ("option parsing", "UnitTest/UnitTest.cpp")],
  ["exit code, order of executed bodies, printed report"])
p("C21", "Date-time values are consistent with the calendar and with time arithmetic",
  "For every representable date and time, the calendar fields are those of the proleptic Gregorian calendar including the day of the week, building a value from fields and from its full time agree, and moving forward and then backward by any number of milliseconds returns the original value with the fields of the moved value correct across month, year and leap boundaries. Values order and compare as the instants they denote, before and after 1970 alike, and from 1970 on so do their exposed numbers of milliseconds. The current time is the clock's, converting local time to UTC gives the fields of that instant in UTC, and converting back returns the original value, in every fixed-offset zone and, in zones with summer time, wherever the UTC reading exists as a local time.",
  ["inputs", "configurations"], "all dates and times, all offsets in milliseconds, all time zones with a fixed offset or a yearly summer time rule",
  "The tests use a handful of dates in one time zone and mostly do not cross boundaries.",
  ["Primitives/DateTime.h", "Primitives/DateTime.cpp", "Primitives/DateTime.Linux.cpp"],
  [("conversion between broken-down fields and an instant in milliseconds", "Primitives/DateTime.Linux.cpp")],
  ["fields, comparison and arithmetic results"])
p("C22", "Collections notify their single observer of disposal exactly once",
  "An observer can be attached to a collection at most once, a second attachment raising an error and keeping the first. An attached observer is told of the collection's disposal exactly once, when the collection is destroyed and not before, whatever happened to the collection in between; copies and moves of a collection never carry or disturb an observer, and collections without observers notify nobody.",
  ["histories"], "all finite histories of attaching observers, mutating, copying, moving and destroying collections of every kind",
  "There is no test that attaches an observer.",
  ["Collections/Interfaces.h", "Collections/List.h", "Collections/Dictionary.h"],
  [("observer pointer set once and notified from the destructor", "Collections/Interfaces.h")],
  ["observer callbacks"])
p("C23", "Push-only allocation and byte maps never mix up entries",
  "Every object obtained from a push-only allocator has its own storage, default constructed, that keeps its value and address until the allocator goes away, at which point each object is destroyed exactly once; looking an object up by its index gives the object handed out with that index, and nothing for an index not handed out yet. A byte map returns for every one of the 256 keys exactly the value last stored under that key in that map and nothing for a key never stored, whatever else was stored in it or in other maps fed from the same allocator.",
  ["histories", "inputs"], "all finite histories of allocations with any block size, and of stores and lookups over all byte keys in any number of maps sharing an allocator",
  "The tests store a few keys in one order; block boundaries, shared allocators and long histories are not reached.",
  ["Collections/List.h"],
  [("linked blocks of fixed size with constructor/destructor per slot", "Collections/List.h"), ("tree of nodes indexed by two-bit slices of a byte", "Collections/List.h")],
  ["addresses, values, constructor/destructor calls"])
p("C24", "Composite values order lexicographically and consistently with equality",
  "For all pairs, tuples, optionals, collections and lazy sequences of ordered values, three-way comparison is the lexicographic one over their components (for sequences, a proper prefix comes first), is antisymmetric and transitive, and says equal if and only if the values compare equal, in whichever mixture of collection kinds the two sides are given. Components that are incomparable make the composite incomparable exactly when they decide the comparison.",
  ["inputs"], "all pairs and triples of composite values",
  "The tests compare a dozen hand-picked pairs.",
  ["Primitives/Tuple.h", "Collections/Pair.h", "Primitives/Nullable.h", "Collections/OperationEnumerable.h", "Collections/List.h", "Collections/Dictionary.h"],
  [("component-wise comparison folded left to right", "Primitives/Tuple.h"), ("parallel enumeration of both sides", "Collections/OperationEnumerable.h")],
  ["comparison and equality results"])
p("C25", "Bulk copying transfers exactly the source's elements",
  "Copying from any collection, lazy sequence, initialiser, string or raw range into any container leaves the target holding exactly the source's elements in order (for keyed and sorted targets, their keyed or sorted arrangement), after the elements it already had if appending was requested and replacing them otherwise. The source is unchanged, unless it is the target itself, in which case the outcome is as if the source had been copied beforehand.",
  ["inputs", "histories"], "all source contents and kinds, all target contents and kinds, both modes, including self-copy",
  "The tests copy between a few container kinds with one fixed content, in one or two modes.",
  ["Collections/OperationCopyFrom.h", "Collections/OperationString.h", "Collections/Interfaces.h"],
  [("per target kind: random access vs sequential algorithms, clear unless appending", "Collections/OperationCopyFrom.h")],
  ["contents of source and target after the copy"])
p("C26", "Filler text has the requested size and capitalisation",
  "For every history of requests for filler text, each text consists of the next whole words of one fixed text (starting over at its end), separated by single spaces, going on where the previous request stopped; among the possible numbers of words it takes the one whose length is closest to the requested one (the longer if two are equally close, at least one word if the requested length is positive, none otherwise). Exactly the first word, every word or no word starts with a capital letter, as requested. A sentence is such a text with a full stop; a paragraph consists of sentences whose first words, and no others, are capitalised, ends with a full stop, and differs from the requested length by at most sixteen characters.",
  ["histories", "inputs"], "all histories of requests of any length and style",
  "There is no test of filler text; buffer sizes and the choice of the last word depend on where the previous request stopped.",
  ["Strings/LoremIpsum.h", "Strings/LoremIpsum.cpp"],
  [("words copied into a buffer sized for the request plus one word, last word dropped if that is closer", "Strings/LoremIpsum.cpp")],
  ["returned texts"])
p("C27", "The console writes and reads exactly the given text",
  "For every history of writing texts, lines and colours, the standard output receives exactly the characters of these texts, each line followed by a carriage return and a line feed, and for each colour its escape sequence, in the order of the calls, with nothing added, lost or reordered. Reading returns the lines of the standard input one after the other without their line feeds, the last one also if it is not terminated, and empty texts once the input is exhausted, for texts without zero characters. (With a locale that can represent the characters.)",
  ["histories", "inputs"], "all histories of writes, colours and reads, with any text",
  "There is no test of the console; the test framework itself reports through it.",
  ["Console.h", "Console.cpp", "Console.Linux.cpp"],
  [("wide streams for text, wide printf for colours, both ending in the same standard output", "Console.Linux.cpp")],
  ["bytes of the standard output, texts read"])
p("C28", "An owner can be replaced by a part of what it owns",
  "For every tree of owners, where an element of an owner has an owner of the same kind inside (Ptr, ComPtr, Nullable, Variant, Func, LazyList, List, Array, SortedList, Dictionary, Group), assigning to an owner from an owner anywhere inside one of its own elements (by moving, by copying for those that can be copied, or from the element itself for optional values and variants) makes it hold exactly what that inner owner held, and releases everything else it held exactly once, reading nothing that was released. The same holds when owners are moved into or out of elements of other owners; the source of a move is left empty, and once everything is released nothing stays allocated.",
  ["histories"], "all trees of owners and all histories of wrapping, adding, replacing an owner by an inner one, moving owners into and out of elements, removing and clearing",
  "No test assigns to an owner from something it owns; whether it works depends on the order in which an assignment takes the new content and releases the old one.",
  ["Primitives/Pointer.h", "Primitives/Nullable.h", "Primitives/Variant.h", "Primitives/Function.h", "Collections/List.h", "Collections/Dictionary.h", "Collections/Operation.h"],
  [("the new content is taken before the old content is released", "assignment operators of the anchored types")],
  ["trees of values held by owners, number of existing elements, bytes left allocated"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
