#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (edit the list here).
import json
I="include/xtypes/"
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":I+w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Type compatibility reports exactly the structural differences",
 "For every ordered pair of types the reported consistency is the set of differences (sign, width, sequence/array/string/map bounds, member names, missing members) found anywhere in the pairwise walk of their structures, 'none' as soon as any corresponding pair of parts is inconvertible, and 'equals' exactly when no difference exists. Every type is 'equals' with itself and with any alias of itself, at any nesting depth, and an alias never changes the verdict on either side. Unions whose corresponding members have different labels are inconvertible.",
 ["inputs","programs"],"all pairs of type terms built from every kind (primitives, strings, enumerations, arrays, sequences, maps, pairs, structures with inheritance, unions, aliases) up to the generated depth",
 "The tests compare a few dozen hand-picked pairs; the verdict has to be right for every pair of nested types, and the flags compose across levels.",
 ["PrimitiveType.hpp","EnumeratedType.hpp","StringType.hpp","ArrayType.hpp","SequenceType.hpp","MapType.hpp","PairType.hpp","AggregationType.hpp","StructType.hpp","UnionType.hpp","AliasType.hpp","TypeConsistency.hpp"],
 [("is_compatible of each type","PrimitiveType.hpp"),("flag set operators","TypeConsistency.hpp")])
p("C02","A fresh instance has the default value of its type",
 "Every newly created instance, and every element that appears because a container grew or a union selected a member, holds the default value of its type: zeros, empty strings and containers, full-size arrays of defaults, default members in structures, and the union's default case if it has one and no selected case otherwise.",
 ["inputs","histories"],"every type term, both as a root and as an element, member or map value that comes into being in the course of any history of operations",
 "Tests look at a few freshly built values; recycled memory makes the default visible only after histories that put other bytes there first.",
 ["DynamicDataImpl.hpp","StructType.hpp","ArrayType.hpp","SequenceInstance.hpp","MapInstance.hpp","UnionType.hpp","PrimitiveType.hpp"],
 [("construct_instance of each type","Instanceable.hpp")])
p("C03","A write changes exactly the addressed part, and is read back",
 "After writing a value through any access path, reading that path by any means (name, index, iterator, cast, traversal) gives the value written, and every other part of that data and of every other data keeps its value.",
 ["inputs","histories"],"every type shape, every addressable path in it, every value of the leaf kind, every history of previous operations",
 "Members are placed by hand-computed offsets; an overlap or wrong offset shows only for particular member orders and neighbours, and tests check the written part rather than the rest.",
 ["DynamicData.hpp","StructType.hpp","AggregationType.hpp","Member.hpp","ArrayType.hpp","UnionType.hpp"],
 [("member offsets","StructType.hpp"),("instance addressing","DynamicData.hpp")],
 [("instance memory","bytes laid out from the type description","DynamicDataImpl.hpp")])
p("C04","Copies are equal, complete and independent of their source",
 "Copying, moving, assigning or extracting a data (whole or any part, including from one of its own parts) yields a value equal to what the source held before, and from then on no operation on either one is visible in the other; a destroyed source leaves its copies intact.",
 ["inputs","histories"],"every type, every way to copy (copy and move construction, whole and partial assignment, construction from a part), every later history on source and copy, including aliasing of source and target",
 "Sharing or premature release shows only in what happens after the copy; tests copy once and compare at once.",
 ["DynamicData.hpp","DynamicDataImpl.hpp","SequenceInstance.hpp","MapInstance.hpp","StringType.hpp","UnionType.hpp","StructType.hpp","ArrayType.hpp"],
 [("copy_instance / move_instance","Instanceable.hpp"),("copy constructors and assignments","DynamicDataImpl.hpp")])
p("C05","Conversion between compatible types keeps every common part",
 "Building or assigning a data from one of a different but convertible type gives a valid value of the target type in which every part common to both equals the source part converted (numeric parts by value as in a numeric cast, text cut to its bound, collections cut to theirs), and every part the source lacks has its default. A conversion that is not carried out (inconvertible types, maps whose entry types differ) is refused with an error and the target is left as it was.",
 ["inputs","programs","histories"],"every pair of types and every source value; conversions nested inside members, elements and alternatives",
 "Conversion has a separate implementation per kind and is reached through nesting; tests convert a few structures once.",
 ["DynamicDataImpl.hpp","PrimitiveType.hpp","StructType.hpp","ArrayType.hpp","SequenceInstance.hpp","MapInstance.hpp","UnionType.hpp","StringType.hpp"],
 [("copy_instance_from_type","Instanceable.hpp")])
p("C06","Data own their memory: everything acquired is released once",
 "For every history of operations, including those that fail with an error, no operation touches memory that is out of range or already released, and when all data and types of the history are destroyed everything they acquired has been released exactly once.",
 ["histories","inputs"],"all histories of creation, copy, conversion, growth, selection, removal and failure, over all types",
 "The tests run without memory checking and most leaks or double releases need growth, re-selection, or assignment over a live value.",
 ["DynamicData.hpp","DynamicDataImpl.hpp","SequenceInstance.hpp","MapInstance.hpp","UnionType.hpp","StringType.hpp"],
 [("construct/destroy pairing","Instanceable.hpp"),("realloc and block ownership","SequenceInstance.hpp"),("realloc and block ownership","MapInstance.hpp")])
p("C07","A sequence holds what was appended, in order, within its bound",
 "After any history a sequence's elements are the appended values in order, later modified only through their own index; growing by resize adds defaults after the existing ones and never loses any. A bounded sequence never exceeds its bound: an operation that would is refused with the contents unchanged.",
 ["histories","inputs"],"all interleavings of append, resize, indexing, copying and assignment for all element types and bounds including unbounded ones",
 "Growth reallocates and moves elements; tests use short histories with one element type.",
 ["SequenceType.hpp","SequenceInstance.hpp","DynamicData.hpp"],
 [("push/resize/realloc","SequenceInstance.hpp")])
p("C08","Strings keep their content and respect their bound",
 "A string of any character width reads back exactly the characters assigned to it, cut to its bound if it has one, wherever it is stored and however it was assigned, copied or compared; its size is the number of characters held.",
 ["inputs","histories"],"all contents including empty, embedded zero characters and lengths around small-buffer and bound limits; narrow, wide and 16-bit strings; any storage place",
 "Content near bounds and inside moved containers is not sampled by the tests.",
 ["StringType.hpp","DynamicData.hpp"],
 [("construct/copy/set of strings","StringType.hpp")])
p("C09","A map associates each key with exactly one value",
 "After any history of insertions, element accesses, assignments and copies, a map holds each key at most once, finds every key it holds and no other, returns for it the last value stored, counts its entries correctly and never exceeds its bound; a refused operation leaves it as it was.",
 ["histories","inputs"],"all histories over all key types (primitives, strings, structures, collections, unions) and value types, bounds included",
 "Keys are located through a hash of their value, so correctness depends on the whole key population; tests insert a few integer or string keys.",
 ["MapType.hpp","MapInstance.hpp","PairType.hpp","DynamicData.hpp"],
 [("find/insert by hash","MapInstance.hpp"),("hash of each type","Instanceable.hpp")])
p("C10","A union's discriminator and active member always agree",
 "At all times either no case is selected or exactly the member whose label equals the discriminator (or the default member) is active, and it holds a valid value; selecting a member sets a discriminator of that member and gives it a default value unless it was already active, and setting the discriminator is accepted only within the active member's labels. Reading an inactive member is refused and changes nothing.",
 ["histories","inputs"],"every union type (discriminator kinds, multiple labels, default case with or without labels, negative and extreme labels) and every history of selections, discriminator writes, copies and conversions",
 "Selection constructs and destroys members in place; the tests follow straight-line scenarios on a few unions.",
 ["UnionType.hpp","DynamicData.hpp"],
 [("labels to member map and current case","UnionType.hpp"),("select_member/select_disc","UnionType.hpp")],
 [("discriminator + member block","current selection and its value","UnionType.hpp")])
p("C11","An enumeration holds only its declared enumerators",
 "Enumerators get the declared value, or one more than the previous one; duplicated names and decreasing values are refused. An enumerated data is set only to declared values of the right width, and setting any other value is refused and leaves the value unchanged; a fresh one holds 0, and one copied from another integer data of its width holds that value.",
 ["inputs","histories"],"all enumerator lists (explicit and automatic values, all widths) and all assignments",
 "Tests use one enumeration with consecutive values.",
 ["EnumerationType.hpp","EnumeratedType.hpp","PrimitiveType.hpp","DynamicData.hpp"],
 [("add_enumerator / is_allowed_value","EnumerationType.hpp")])
p("C12","Equality is by value, and equal values hash alike",
 "Two data of the same type (or of collections that differ in their bound only) compare equal exactly when all their parts are equal, whatever histories produced them; equality is reflexive (floating point not-a-number values aside), symmetric and agrees with inequality. Equal data have equal hashes, and a change in any part is reflected in the hash of the whole.",
 ["inputs","histories"],"all pairs of values of all types, in particular pairs reached by different histories and differing in one nested part",
 "Comparing raw bytes (padding, unused capacity, released members) or skipping parts shows only for values with different pasts.",
 ["DynamicDataImpl.hpp","Instanceable.hpp","PrimitiveType.hpp","StringType.hpp","ArrayType.hpp","SequenceInstance.hpp","MapInstance.hpp","StructType.hpp","UnionType.hpp"],
 [("compare_instance","Instanceable.hpp"),("hash","Instanceable.hpp")])
p("C13","Traversal visits every part once, parents first, and can stop",
 "Traversing a data visits the root, then every member, element, map entry and the active union alternative exactly once, depth first in declaration order, with the right depth, index, member, parent, type and value for each; traversing a type does the same for its description. A visitor that stops the traversal is not called again and its verdict is returned; modifying leaves during a mutable traversal is visible afterwards. Reaching a union without a selected case ends the traversal of the data with an error.",
 ["inputs","programs"],"all types and values, every stopping point",
 "Tests count or print the visits for one or two composed types.",
 ["DynamicData.hpp","DynamicType.hpp","StructType.hpp","ArrayType.hpp","SequenceType.hpp","MapType.hpp","PairType.hpp","UnionType.hpp","AliasType.hpp"],
 [("for_each_instance / for_each_type of each type","Instanceable.hpp"),("nodes","DynamicData.hpp")])
p("C14","Iteration and element access agree with each other",
 "Iterating a collection yields exactly its elements in index order (a map: each entry once), iterating the items of a structure yields each member with its value in declaration order, sizes and bounds agree with what iteration yields, and bulk extraction of a collection's elements gives the same values.",
 ["inputs","histories"],"all collection and aggregation types, all contents reached by histories, empty ones included",
 "Tests iterate a few fixed arrays and sequences of one element type.",
 ["DynamicData.hpp","Member.hpp","AggregationType.hpp"],
 [("iterators and member iterators","DynamicData.hpp"),("as_vector / iterable access","DynamicData.hpp")])
p("C15","A misuse is refused with an error and changes nothing",
 "Every operation whose documented precondition does not hold (wrong kind, unknown member, index or key out of range, value of another type, bound exceeded, inactive alternative, incompatible type) is refused with an error, both on constant and on mutable data, and leaves all data and types exactly as they were and usable.",
 ["inputs","histories"],"every operation, every kind of operand it does not accept, at any point of any history",
 "Tests check a handful of refusals and never the state after one.",
 ["Assert.hpp","DynamicData.hpp","StructType.hpp","UnionType.hpp","SequenceInstance.hpp","MapInstance.hpp"],
 [("precondition assertions","Assert.hpp")])
p("C16","Type descriptions are exact, name-unique and independent values",
 "A structure, union or enumeration lists exactly the members it was given, in order, inherited ones first, each with its type and flags, refuses duplicate names or labels and leaves the description unchanged when it refuses; lookups by name, index and label agree with the list. A type held by value that is given to another type, or used to create data, is taken as a value: later changes of the original are not visible there.",
 ["histories","inputs"],"all construction histories of all constructed types, including refused steps and later modification of component types",
 "Tests build straight-line types once and rarely modify a type after using it.",
 ["AggregationType.hpp","StructType.hpp","UnionType.hpp","EnumerationType.hpp","DynamicType.hpp","Member.hpp","AliasType.hpp","CollectionType.hpp"],
 [("add_member / parent","StructType.hpp"),("add_case_member","UnionType.hpp"),("value-semantics pointer","DynamicType.hpp")])
p("C17","Operators and casts act as those of the underlying C++ type",
 "Arithmetic, bitwise, logical, comparison, shift, in-place and step operators between primitive data, and casts of a data to a C++ type, between data of the same kind give the value the same operation gives on the underlying C++ values, for every kind that allows it; operations a kind does not allow, and operands of another kind, are refused and nothing changes.",
 ["inputs"],"all operators, all primitive kinds, operand values including extremes",
 "Each operator is expanded per kind by hand; tests exercise a few kinds with small values.",
 ["DynamicData.hpp","DynamicDataImpl.hpp"],
 [("operator dispatch per kind","DynamicDataImpl.hpp"),("cast","DynamicData.hpp")])
p("C18","An alias is indistinguishable from the type it names",
 "Declaring any part of a type through one or more aliases changes nothing in how its data behave: same operations accepted, same values, copies, comparisons, hashes, traversal of values and conversions; only the reported name differs.",
 ["programs","inputs","histories"],"every type with aliases inserted at any subset of positions, every history of operations",
 "Each operation has to unwrap aliases itself; tests alias a few types at the root.",
 ["AliasType.hpp","DynamicData.hpp","DynamicDataImpl.hpp"],
 [("rget/unalias forwarding","AliasType.hpp")])
p("C19","Names in modules resolve by scope, innermost first",
 "In any tree of modules, looking a name up from a module finds the declaration in the nearest enclosing module that has it; an absolute name is looked up from the root only, a qualified name through the named submodules; unknown names are reported as absent by every query without changing the tree.",
 ["histories","inputs"],"all module trees, declarations with shadowing, and all simple, qualified and absolute names from every module",
 "Tests resolve a few names in one small tree.",
 ["idl/Module.hpp"],
 [("resolve_scope and per-kind lookups","idl/Module.hpp")])
p("C20","Modules record each declaration once, under its scoped name",
 "Declaring types, aliases and constants in any order gives a module that reports exactly those, each under one name and with its scope as prefix; a clashing or malformed name is refused and changes nothing, and replacing is done only on request. Counting, enumerating and collecting declarations, alone or with nested modules, gives each exactly once.",
 ["histories","inputs"],"all sequences of declarations, replacements and queries over all kinds and nestings of modules",
 "Tests declare a few items in a row and query one or two.",
 ["idl/Module.hpp"],
 [("structure/union_switch/enum_32/create_alias/create_constant/create_submodule","idl/Module.hpp"),("fill_all_types / for_each","idl/Module.hpp")])
p("C21","Generated IDL declares everything once, before use, with its exact shape",
 "The IDL text generated for a structure or a module contains every declaration of it exactly once with the right members, types, bounds, labels and constants, nested under its module, and any name it uses is declared earlier in the text.",
 ["inputs","programs"],"all module trees with dependencies among structures (inheritance, members, collections), unions, enumerations, aliases and constants, across modules whose dependencies on each other are acyclic",
 "Ordering depends on the dependency graph and on map order of names; the tests that exercise it are not even built without the parser.",
 ["idl/generator.hpp","idl/generator_deptree.hpp"],
 [("text generation","idl/generator.hpp"),("dependency ordering","idl/generator_deptree.hpp")])
p("C22","Text conversion between UTF-8 and UTF-16 is lossless",
 "Converting any valid Unicode text of any length between 8-bit and 16-bit encodings gives exactly the same characters in the other encoding, and converting back gives the original; the conversion always terminates.",
 ["inputs"],"all valid texts: every code point class, any length and any position of multi-unit characters relative to the working buffer; malformed input must end in an error",
 "The converter works through a fixed-size buffer; tests convert a few short strings.",
 ["StringConversion.hpp"],
 [("buffered conversion loop","StringConversion.hpp")])
p("C23","The printed form of a data shows every part with its value",
 "The text rendering of a data lists every part exactly once in traversal order, with its depth, its member name or index, its type name and, for primitive and text parts, its value; rendering never changes the data.",
 ["inputs","histories"],"all types and values",
 "Tests print data and compare nothing, or compare one text.",
 ["DynamicDataImpl.hpp"],
 [("to_string","DynamicDataImpl.hpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
