#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=["include/xtypes/"+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Sequences behave like growable arrays",
  "For every element type and every history, pushing a value of the element type appends exactly one element equal to that value, and resizing to a larger size appends default-valued elements while resizing to a size not larger changes nothing. Every element already stored keeps its value and its index through any number of pushes, resizes and internal reallocations. The reported size always equals the number of elements so appended.",
  ["inputs","histories"],"every element type, element size, bound, initial size and sequence of push/resize calls",
  "tests push a handful of values into a few element types; growth, default construction and preservation must hold at every size and for every element type",
  ["SequenceInstance.hpp","SequenceType.hpp","DynamicData.hpp"],
  [("SequenceInstance::push/resize/realloc/move_content","SequenceInstance.hpp"),("SequenceType::push_instance/resize_instance","SequenceType.hpp")],
  ["DynamicData::push","DynamicData::resize","operator[]","size()"],
  [("capacity_/size_/memory_","allocated slots, live elements and their storage","SequenceInstance.hpp")])
p("C02","Maps behave like key-to-value dictionaries",
  "For every key and value type and every history of insertions and lookups, a map holds one entry per distinct key that was inserted, each entry keeps the value last written to it, and inserting one key never alters, loses or duplicates the entry of another key. Looking up a key succeeds exactly when it was inserted and yields that key's own value; size equals the number of distinct keys. Keys are compared by value (floating-point keys and keys whose 64-bit hashes collide excluded).",
  ["inputs","histories"],"every key type, value type, key order and sequence of insert/lookup/has_key calls",
  "tests insert a few keys in one or two orders; ordered insertion, binary search and shifting must be right for every order and every size",
  ["MapInstance.hpp","MapType.hpp","PairType.hpp","DynamicData.hpp"],
  [("MapInstance::find_place (binary search by hash)","MapInstance.hpp"),("MapInstance::create_place/move_content (ordered insertion)","MapInstance.hpp")],
  ["DynamicData::operator[](key)","at","has_key","insert","size()"],
  [("memory_ sorted by key hash","representation invariant of the binary search","MapInstance.hpp")])
p("C03","A copied or moved data is equal to, and independent of, its source",
  "Constructing or assigning a data from another data of the same type (by copy, by move, from a reference to a member or element, or from itself) gives a data equal to the value the source had. After a copy, no later change of either one is ever visible in the other, at any depth of nesting.",
  ["inputs","histories"],"every type, every content, every way of copying, and every later mutation",
  "tests copy a few nested structures; independence must hold for each type at every depth and after every later mutation",
  ["DynamicData.hpp","SequenceInstance.hpp","MapInstance.hpp","StructType.hpp","ArrayType.hpp","UnionType.hpp","StringType.hpp","PairType.hpp"],
  [("copy_instance/move_instance of every type","*Type.hpp"),("DynamicData constructors and assignment","DynamicData.hpp")],
  ["DynamicData(const DynamicData&)","DynamicData(DynamicData&&)","DynamicData(const ReadableDynamicDataRef&)","operator=","operator=="])
p("C04","Equality is deep structural equality and agrees with hashing",
  "Two data of the same type are equal exactly when their sizes, discriminators, selected members and all values reached through every nested member and element are equal, so equality is symmetric, transitive and, floating-point NaN aside, reflexive, and != is always its negation. Data (without floating-point content) that are equal have equal hashes.",
  ["inputs"],"every type and every pair of contents",
  "tests compare a few hand-made values; a difference at any one position, of any type, must be noticed and equal contents built through different histories must be equal",
  ["DynamicData.hpp","SequenceInstance.hpp","MapInstance.hpp","StructType.hpp","ArrayType.hpp","UnionType.hpp","StringType.hpp","PairType.hpp","PrimitiveType.hpp","Instanceable.hpp"],
  [("compare_instance and hash of every type","*Type.hpp")],
  ["DynamicData::operator==","operator!=","hash()"])
p("C05","Conversion between compatible types preserves values",
  "Constructing a data of one type from a data of a compatible but different type carries every value over: numbers as by C++ conversion, elements, members and pairs position by position, the selected union member with its discriminator (between unions that declare the same labels), strings by content, a one-member structure standing for its member. What the destination bounds cannot hold is truncated to the bound, and members or elements the source does not have take their default value. Maps are converted only between maps with the same key and value types; what cannot be converted is rejected with an error.",
  ["inputs"],"every pair of types that is_compatible() accepts and every source content",
  "tests convert a few fixed pairs; value preservation, truncation and defaulting must hold for each compatible pair of types, widths, dimensions and bounds",
  ["DynamicData.hpp","PrimitiveType.hpp","StructType.hpp","ArrayType.hpp","SequenceType.hpp","SequenceInstance.hpp","MapType.hpp","MapInstance.hpp","StringType.hpp","UnionType.hpp","AliasType.hpp"],
  [("copy_instance_from_type of every type","*Type.hpp")],
  ["DynamicData(const ReadableDynamicDataRef&, const DynamicType&)"])
p("C06","Type compatibility is decided consistently",
  "is_compatible() reports EQUALS for a type against itself or a copy of it, sees through any chain of aliases on either side, lets a one-member structure stand for its member, and reports NONE as soon as any pair of corresponding parts is incompatible. Otherwise it reports exactly the union of the differences (sign, width, each kind of bound, member names, extra members) found in the corresponding parts, with unsigned integers and enumerations counting as unsigned and the other primitive types as signed, and for primitive, string and collection types the answer does not depend on which of the two types is asked.",
  ["inputs","configurations"],"every pair of types of any nesting",
  "tests check selected pairs; the relation must be right for all pairs of kinds, bounds, dimensions and nestings",
  ["TypeConsistency.hpp","PrimitiveType.hpp","EnumeratedType.hpp","StructType.hpp","ArrayType.hpp","SequenceType.hpp","MapType.hpp","StringType.hpp","UnionType.hpp","AliasType.hpp","PairType.hpp"],
  [("is_compatible of every type","*Type.hpp"),("TypeConsistency flag algebra","TypeConsistency.hpp")],
  ["DynamicType::is_compatible"])
p("C07","A union's discriminator always denotes its active member",
  "At every moment the discriminator value of a union and its accessible member correspond: selecting a member by name sets the discriminator to one of its labels and gives a freshly default-constructed member unless it was already active, and only the active member can be read. Assigning the discriminator directly is accepted only for a label of the already active member (or when none is active) and never changes which member is active or its value. Two members never share a label, each union has at most one default member, and a union without a default starts with no member selected.",
  ["inputs","histories"],"every discriminator type but bool, label set (labels are taken after conversion to the discriminator type), default configuration and sequence of selections and discriminator writes",
  "tests use a few unions with small positive labels; the label encoding must be right for every discriminator type, width and sign and for every history of selections",
  ["UnionType.hpp","DynamicData.hpp"],
  [("select_case/select_disc/activate_member/current_label/shrink_label","UnionType.hpp"),("add_case_member/check_label_value","UnionType.hpp")],
  ["operator[](member)","d()","d(label)","current_case()","get_member"],
  [("labels_/default_","which labels select which member","UnionType.hpp")])
p("C08","Members and elements occupy disjoint memory",
  "In every type the storage of distinct members, elements, keys and values never overlaps, lies inside the storage of the enclosing data and is as large as the type requires, so that writing through one member or element reference changes that member or element and no other. This holds for inherited members, for every nesting and order of members, and for every index.",
  ["inputs","configurations"],"every type definition, every member or index pair",
  "tests write and read a few members; non-interference must hold for each layout",
  ["StructType.hpp","AggregationType.hpp","Member.hpp","ArrayType.hpp","UnionType.hpp","PairType.hpp","MapInstance.hpp","SequenceInstance.hpp","DynamicData.hpp"],
  [("StructType::add_member offsets","StructType.hpp"),("ArrayType::get_instance_at","ArrayType.hpp"),("UnionType::add_case_member offsets/memory_size_","UnionType.hpp")],
  ["operator[]","memory_size()","Member::offset()"])
p("C09","Bounds are never exceeded",
  "A bounded sequence, map or string created, grown, copied or converted through the API never holds more elements than its bound, and an unbounded one is never truncated. An operation on a sequence or map that would exceed the bound is rejected with an error and leaves the data unchanged, and filling a collection exactly up to its bound always succeeds.",
  ["inputs","histories"],"every bound, every history of growth operations and every conversion into a bounded type",
  "tests try one or two small bounds; the limit must be exact for every bound and every way to grow",
  ["SequenceType.hpp","SequenceInstance.hpp","MapType.hpp","MapInstance.hpp","StringType.hpp","DynamicData.hpp"],
  [("push_instance/insert_instance bound tests","SequenceType.hpp, MapType.hpp"),("DynamicData::resize bound test","DynamicData.hpp"),("min(bounds) in copies","SequenceInstance.hpp, MapInstance.hpp, StringType.hpp")],
  ["push","resize","insert","operator[](key)","DynamicData(ref, type)"])
p("C10","Enumerations hold only their declared values",
  "Enumerator names of a type are unique and their values strictly increase in declaration order, an enumerator declared without value takes the previous value plus one, and looking an enumerator up by name or by value returns exactly what was declared. Assigning a C++ value to a data of enumerated type succeeds exactly when the value is one of the declared ones, and otherwise raises an error and leaves the data unchanged.",
  ["inputs","histories"],"every underlying width, every declaration history and every value",
  "tests use a few small enumerations; the limits of each underlying type and every value must be covered",
  ["EnumeratedType.hpp","EnumerationType.hpp","DynamicData.hpp"],
  [("EnumerationType::add_enumerator","EnumerationType.hpp"),("EnumeratedType::is_allowed_value/value/enumerator","EnumeratedType.hpp"),("WritableDynamicDataRef::value(T)","DynamicData.hpp")],
  ["add_enumerator","value(name)","enumerator(value)","is_allowed_value","DynamicData::operator="])
p("C11","Every value is constructed and destroyed exactly once",
  "Over any history of creating, copying, moving, assigning, growing, selecting, converting and destroying data (constructions that raise an exception excepted), each nested string, sequence and map is constructed before it is used, destroyed exactly once, and its memory released; no operation reads or writes outside the storage of the data it works on. When all data are gone nothing is left allocated.",
  ["inputs","histories"],"every type and every history of operations",
  "tests observe values, not lifetimes; leaks, double destruction and out-of-bounds accesses need every history and every nesting",
  ["DynamicData.hpp","SequenceInstance.hpp","MapInstance.hpp","StructType.hpp","ArrayType.hpp","UnionType.hpp","PairType.hpp","StringType.hpp","SequenceType.hpp","MapType.hpp"],
  [("construct/copy/move/destroy_instance of every type","*Type.hpp"),("~DynamicData","DynamicData.hpp"),("init_memory/free_memory","SequenceInstance.hpp, MapInstance.hpp")],
  ["DynamicData construction, assignment and destruction"])
p("C12","A rejected operation raises an error and changes nothing",
  "With exceptions enabled, using data or types against their documented preconditions (wrong kind, unknown member, index or key not present, bound exceeded, incompatible types, reserved or repeated names and labels, disallowed values) raises an exception. The data or type involved is left exactly as it was before the rejected call.",
  ["inputs","histories"],"every kind of data, every operation and every argument that violates the operation's precondition",
  "tests check some of the assertions; for every operation the complement of its precondition must be rejected before any effect",
  ["DynamicData.hpp","Assert.hpp","AggregationType.hpp","UnionType.hpp","EnumeratedType.hpp","EnumerationType.hpp","SequenceInstance.hpp","MapInstance.hpp"],
  [("xtypes_assert preconditions of the DynamicData API","DynamicData.hpp"),("type-building assertions","AggregationType.hpp, UnionType.hpp, EnumerationType.hpp")],
  ["every public operation of DynamicData and of the type builders"])
p("C13","Operators on primitive data compute what C++ computes",
  "For every primitive kind on which an operator is offered and all operand values for which C++ defines it, arithmetic, bitwise, comparison, logical, increment, decrement and compound-assignment operators on data give the same value as the same C++ operator on values of that C++ type, converted back to that type (the result of post-increment and post-decrement excepted). Operands are not modified, except the left operand of an assigning operator, which takes exactly that value; kinds on which an operator is not offered are rejected with an error.",
  ["inputs"],"every operator, every primitive kind, and all operand values",
  "tests evaluate each operator at a few values of some kinds; wrap-around, sign and width behaviour needs all values of all kinds",
  ["DynamicDataImpl.hpp","DynamicData.hpp"],
  [("DYNAMIC_DATA_* operator macros","DynamicDataImpl.hpp")],
  ["DynamicData operators"])
p("C14","Traversal visits every part exactly once, in order",
  "Iterating a collection or the members of an aggregation yields each element or member exactly once, in index or declaration order, referring to the stored value itself. for_each() visits the data itself and then, depth first, every nested member, element and selected union member exactly once, each with the depth, parent, index and member through which it was reached, and stops with the value thrown by the visitor.",
  ["inputs"],"every type and content",
  "tests walk a few fixed trees; order, completeness and node data must hold for each shape",
  ["DynamicData.hpp","Instanceable.hpp","StructType.hpp","ArrayType.hpp","SequenceType.hpp","MapType.hpp","UnionType.hpp","PairType.hpp","AliasType.hpp"],
  [("for_each_instance of every type","*Type.hpp"),("Iterator/MemberIterator","DynamicData.hpp")],
  ["for_each","begin/end","items/citems"])
p("C15","Primitive and string values read back as written",
  "A value written into a data, member or element of any primitive, enumerated or string kind is read back unchanged by value(), by implicit conversion and through any reference to it, until it is written again. cast<T>() of a primitive or enumerated data gives exactly the C++ conversion of the stored value to T, and a freshly created primitive data reads zero.",
  ["inputs"],"all kinds and all values, for each access path",
  "tests use single sample values per kind; every value, sign and width must survive",
  ["DynamicData.hpp","PrimitiveType.hpp","StringType.hpp"],
  [("ReadableDynamicDataRef::value/_cast","DynamicData.hpp"),("WritableDynamicDataRef::value(T)","DynamicData.hpp"),("PrimitiveType<T>::copy_instance/construct_instance","PrimitiveType.hpp")],
  ["value<T>()","value(T)","operator T()","cast<T>()","as_vector<T>()"])
p("C16","Modules resolve names to the nearest enclosing definition",
  "In any tree of modules, a name resolves to the entity of that name in the innermost enclosing module that defines it, a scoped name a::b resolves inside the nearest enclosing module that has a submodule a, and a name starting with :: resolves from the root only; a name that denotes nothing yields nothing and never a failure of another kind. Adding a type or a constant under a name already taken in the same module is refused and leaves the existing entity as it was.",
  ["inputs","histories"],"every module tree, every set of definitions and every scoped name",
  "tests resolve names in one fixed tree",
  ["idl/Module.hpp"],
  [("Module::resolve_scope/type/structure/has_*","idl/Module.hpp")],
  ["Module::type","Module::structure","Module::has_structure","Module::create_submodule"])
p("C17","Types are held by value",
  "A type added as a member, element, key, alias target or discriminator of another type, or used to create a data, is taken as it is at that moment. Extending or destroying the original type object afterwards (one not itself owned by a shared pointer) changes neither the types nor the data built from it.",
  ["histories"],"every composition of types and every later change of the original type object",
  "tests keep the original types alive and unchanged",
  ["DynamicType.hpp","Member.hpp","CollectionType.hpp","AliasType.hpp","PairType.hpp","AggregationType.hpp","DynamicData.hpp"],
  [("DynamicType::Ptr clone-on-copy","DynamicType.hpp"),("ReadableDynamicDataRef type retention","DynamicData.hpp")],
  ["add_member","collection constructors","DynamicData(type)"])
p("C18","String code conversion is lossless",
  "Converting any valid UTF-16 string to UTF-8 and back, of any length, returns the original string, and the conversion of a string is the concatenation of the conversions of its characters. No input makes the conversion loop forever.",
  ["inputs"],"every valid string of any length, any mix of character widths and position of multi-byte characters",
  "tests convert short samples only; buffer boundaries need long inputs",
  ["StringConversion.hpp"],
  [("code_conversion_tool chunked codecvt loop","StringConversion.hpp")],
  ["code_conversion_tool","to_string()"])
p("C19","Generated IDL describes the same types",
  "The IDL text generated for a module, read back by the IDL parser, gives a module whose types are equal to the original ones, for every composition of types the generator supports.",
  ["inputs","programs"],"every module of types",
  "no test in the pinned build runs the generator; round trips need all compositions",
  ["idl/generator.hpp","idl/generator_deptree.hpp","idl/Module.hpp"],
  [("generate::module and its per-kind functions","idl/generator.hpp")],
  ["idl::generator"])
p("C20","Parsing IDL yields exactly the declared types",
  "Every IDL text of the supported grammar is parsed into types with exactly the declared names, members, labels, bounds, values and module structure, and any other text is rejected with an error.",
  ["inputs","programs"],"every IDL text",
  "the parser is not part of the pinned offline build",
  ["idl/parser.hpp","idl/grammar.hpp"],
  [("idl::parser","idl/parser.hpp")],
  ["idl::parse"])
p("C21","Data can be used from several threads when not shared",
  "Threads working on separate data, even when these share types, never disturb each other: each thread observes the results it would observe alone.",
  ["schedules"],"every interleaving of operations on distinct data",
  "no test starts a thread",
  ["DynamicData.hpp","DynamicType.hpp","PrimitiveType.hpp"],
  [("types shared through reference counts only; no mutable global state","DynamicType.hpp")],
  ["all DynamicData operations"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
