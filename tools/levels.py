TECHNIQUE = "contract-based deductive verification: contracts on the real code, verification conditions from its LLVM IR (regenerated on every run), discharged by z3; a bounded native suite (labelled bounded) runs beside it"
SETUP = "python3 --version && g++ --version && clang++ --version"
NOTES = "check.py builds everything from /repo's current tree in a temporary directory which it removes. No hooks in /repo."
COMMON = ["clang's translation to LLVM IR, the verification condition generator in dv/, z3, and the contracts of the C++ runtime (allocation below 2^40 bytes succeeds, sizes of blocks do not overflow 64 bits, red-black tree rebalancing of libstdc++)",
          "sequential execution; the text of the message of an exception is dropped (dv/assert_shim.hpp)"]
SLOTS = ["element, member, key and value types are any type that keeps the contract of DynamicType (ghost value and lifetime per instance); types of size zero and sizes of 2^31 bytes or more are excluded"]
MEMBERS = ["structures with up to three members (and a parent), unions with two members: any member types, sizes, labels; larger member counts are covered by the bounded suite only"]
def c(rule, proved, rest, extra=()):
    return {"level": "proof", "rule": rule, "note": f"Proved (all inputs, all iterations): {proved} Bounded only: {rest}", "assumptions": COMMON + list(extra)}
CHECKS = {
 "C01": c("histories of push, resize, copy and reference changes on sequences of generated element types, compared after every step with a model vector.",
          "construction, push (also of an own element), resize and indexing of a sequence in an arbitrary state, for any element type, size, capacity and bound: every element keeps value and index, the new ones have the pushed or the default value, the size is exact; hence every history, by induction over its operations.",
          "the same operations through DynamicData on generated concrete types.", SLOTS),
 "C02": c("histories of insertions, lookups and copies on maps of generated key and value types, compared after every step with a model dictionary.",
          "lookup, has_key, index_of and insertion (with and without growth) of a map in an arbitrary ordered state, for any key and value type, size, capacity and bound; find_place() is proved against the contract by which insertion knows it: the place of a key is the one at which the order of the hashes puts it.",
          "operator[] and insert() of DynamicData on top of the map.", SLOTS + ["keys whose 64-bit hashes collide are excluded"]),
 "C03": c("copies, moves, assignments and self assignments of random data of generated types, with changes to either side afterwards, compared with a model value.",
          "copy and move of sequences, arrays, maps, pairs, aliases, structures and unions over any part types, and every constructor and assignment of DynamicData over any type: the target has the source's value and shares no memory with it.",
          "generated concrete nestings.", SLOTS + MEMBERS),
 "C04": c("pairs of random data of generated types, equal and minimally different, compared through ==, != and hash() with the structural equality of the model.",
          "compare_instance and hash of sequences, arrays, maps, pairs, aliases, structures and unions over any part types, and ==, !=, hash() of data of any type: true exactly when sizes, discriminators and all parts are equal, equal data have equal hashes.",
          "generated concrete nestings.", SLOTS + MEMBERS),
 "C05": c("pairs of generated compatible types and random data, the conversion compared with a reference conversion of the model.",
          "copy_instance_from_type of arrays, sequences, maps (with lookup and insertion known by their contracts), pairs, aliases, structures and unions over any two part types; primitive conversions are decided with C15.",
          "strings, enumeration discriminators, generated concrete nestings.", SLOTS + MEMBERS + ["the conversion of a type without sub-instances is determined by the kinds of the two types"]),
 "C06": c("pairs of generated types, is_compatible() compared with a reference computation over the description of both types.",
          "is_compatible() of every kind of type: primitives exhaustively, strings, enumerations and collections for all bounds, dimensions and contents, structures with up to three members, alias chains.",
          "unions, nested compositions.", MEMBERS),
 "C07": c("histories of selections, discriminator assignments, copies and reads over generated unions, compared with a model of label and member.",
          "creation, selection by name, by value and by reference, reading, direct assignment of the discriminator and destruction of a union in an arbitrary state, for every integer and character discriminator type, any labels, any default configuration and any member types; declaration of members and labels.",
          "enumeration discriminators, more than two members.", MEMBERS),
 "C08": c("generated nested types; every leaf written alone and all others compared with their previous value and address ranges.",
          "places of the elements of arrays, sequences and maps, the parts of a pair, the members of structures (own and inherited) and of unions, for any part types: inside the enclosing data, disjoint, writing one leaves the others.",
          "generated concrete nestings.", SLOTS + MEMBERS),
 "C09": c("bounded and unbounded collections driven below, at and beyond the bound through every growing operation.",
          "push, resize, copy and conversion of a sequence in an arbitrary state with any bound: never above it, rejected without a change beyond it, accepted up to it. (Insertion into maps: with C02.)",
          "strings, maps through DynamicData.", SLOTS),
 "C10": c("random enumeration declarations and all interesting values assigned, compared with a model enumeration.",
          "declaration (explicit and implicit values), lookup by name and value and assignment for every underlying width and every C++ type of the value, with up to three declared enumerators of any value.",
          "longer declaration histories.", []),
 "C11": c("histories over generated types under AddressSanitizer with a count of live allocations at the end.",
          "lifetime obligations (constructed before use, destroyed once, memory released, nothing outside the storage) of every operation of sequences, arrays, maps, pairs, aliases, structures, unions and of DynamicData over any type.",
          "strings, generated concrete nestings.", SLOTS + MEMBERS),
 "C12": c("misuses of every API family; an exception is required and the data or type compared with its previous value.",
          "every operation of the data API called on every kind of type it is not offered for, and refused operations on collections, pairs, structures, unions and types over any contents: an error is raised and nothing has changed.",
          "misuses of concrete generated types.", MEMBERS),
 "C13": c("every operator over every pair of primitive kinds and boundary and random operands, compared with the C++ operator.",
          "every operator over every pair of kinds on which it is offered, and every refusal, for all operand values (floating-point operations as uninterpreted functions of their operands).",
          "nothing (the bounded suite repeats the whole).", ["left shift of negative values and operand values for which C++ does not define the operator are excluded"]),
 "C14": c("traversals of random data of generated types compared with the visits a model predicts.",
          "for_each over arrays, sequences, maps, pairs, structures (own and inherited members) and unions over any part types: every part once, in order, with its depth, parent, index and member; items().",
          "iterators of collections, values thrown by the visitor through DynamicData.", SLOTS + MEMBERS),
 "C15": c("writes and reads of boundary and random values of every kind through every access path, compared with the value written.",
          "value(), implicit conversion, references, cast<T>() to every T and the value of a new data, for every primitive kind and every value.",
          "strings, enumerations.", ["floating-point conversions are uninterpreted functions of their operand"]),
 "C16": c("random module trees and names (well formed or not), every resolution and every refused addition compared with a reference resolver.",
          "resolve_scope() and every has_*, getter and type() of a module in a tree of any shape with any content, for any name, against the definition of the property one level at a time: recursive calls (enclosing module with the whole name, submodule with the rest) are known by the contract of the function itself, which is the induction over tree and name; has_symbol(), symbol_count(), submodules; every way to add a type or a constant: a taken or scoped name is refused and nothing changes, a free one is added under its name and nothing else changes.",
          "termination of the resolution beyond the decrease that the recursive contracts demand, traversals of all modules, create_submodule().",
          ["std::string and std::map in Module.hpp are bound to their contracts (dv/c16.hpp): a name is known by the split at its first \"::\", a map by the names in it and the entity of the name of interest; the function bodies are compiled unchanged"]),
 "C17": c("types extended or destroyed after being used in others, compared with an untouched copy of the description.",
          "every way to use a type in another (member, parent, element, key, value, alias target, discriminator, union member) and to create a data: the original is extended, renamed and destroyed, and what was built keeps name, layout, members and values.",
          "generated compositions.", MEMBERS),
 "C18": c("random and boundary strings converted in both directions, compared with the concatenation of the conversions of the characters.",
          "the chunked conversion loop for input of any length and any facet that satisfies the contract of std::codecvt: the result is the concatenation of the facet's conversions, progress is made in every round.",
          "the facet of libstdc++ itself (std::codecvt<char16_t, char, mbstate_t>), the round trip of concrete strings.", ["std::codecvt converts a prefix of the input, and a buffer of four units has space for any character", "input below 2^20 units"]),
}
NA = {
 "C19": "the IDL generator writes text through iostreams and is only meaningful together with the parser (not compilable here: peglib.h is not installed); a contract for it would have to restate the whole grammar",
 "C20": "the parser (idl/parser.hpp) needs peglib.h, which is not installed and cannot be fetched, so the code cannot be compiled, executed or verified here",
 "C21": "concurrency: the verifier's contracts are sequential, and the family has no permission logic for C++ available here",
}
