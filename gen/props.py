#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
M='crates/mirror-mirror/src/'; D='crates/mirror-mirror-macros/src/derive_reflect/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Erasing a value and rebuilding it gives back the same value",
 "For every reflected type and every value of it, building the type from the value's type-erased form yields a value equal to the original in every reflected field, with skipped fields at their defaults. The same holds when it is built directly from the original, from its clone, or from an erased form that went through another erasure.",
 ["inputs","programs"],"every derivable or built-in type shape (nesting, skips, generics, opt-outs, recursion) and every value of it",
 "The tests round-trip a few fixed values of a few fixed types; skipped fields in the middle, nested arrays, optional recursion and most scalar extremes are never round-tripped.",
 [D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",M+"foreign_impls/",M+"value.rs",M+"tuple.rs"],
 [("derived to_value / FromReflect::from_reflect",D+"*.rs"),("foreign impls of to_value / from_reflect",M+"foreign_impls/*.rs")],
 ["Reflect::to_value","FromReflect::from_reflect"])
p("C02","Building a type from a reflected value accepts exactly matching shapes",
 "Building a type from any reflected value (one without active skipped variants, which has no erased form) never panics: it succeeds exactly when the source has the required kind, every required field, element, key and active variant is present and itself convertible, and then takes every field from the corresponding part of the source. Surplus fields of the source are ignored, scalars are never converted between types, values outside the target's domain are refused, and the source is left unchanged.",
 ["inputs","programs"],"all pairs of target type and source value, including sources of unrelated types and hand-made erased values",
 "Tests only try matching sources and two or three mismatches; the space of mismatching pairs is unbounded.",
 [D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",M+"foreign_impls/",M+"tuple.rs",M+"struct_.rs",M+"enum_.rs",M+"lib.rs"],
 [("derived FromReflect",D+"*.rs"),("scalar/container/dynamic FromReflect impls",M+"lib.rs, foreign_impls, tuple.rs, struct_.rs, enum_.rs")],
 ["FromReflect::from_reflect"])
p("C03","All ways of reaching a field agree",
 "For every reflected value, looking fields up by name, by position, by iterating, and through their mutable counterparts all describe the same fields, in declaration (or insertion) order, exactly once each, excluding skipped ones; positions and names out of range give nothing. Reported counts and iterator lengths, also of partly consumed iterators, equal the number of fields actually left.",
 ["inputs","programs"],"every type shape (including skips in any position and awkward field names) and value, every index and name",
 "Tests look at one or two fields of fixed types and never compare the access routes with each other for types with skipped fields.",
 [D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",M+"struct_.rs",M+"tuple_struct.rs",M+"tuple.rs",M+"enum_.rs",M+"array.rs"],
 [("derived Struct/TupleStruct/Enum impls",D+"*.rs"),("Iter types",M+"struct_.rs, tuple.rs, tuple_struct.rs, array.rs, enum_.rs")],
 ["Struct","TupleStruct","Tuple","Enum","Array"])
p("C04","Writing through reflection changes exactly the addressed part",
 "A write made through a mutable reflected reference (obtained by name, position, iteration, key path, scalar reference or downcast) is seen by the owner of the value in exactly the addressed place, and nothing else, including skipped fields and sibling elements, changes. Obtaining a mutable reference without writing changes nothing.",
 ["inputs","histories","programs"],"every type, value, address and sequence of writes",
 "Tests check the written field of small fixed structs and rarely the fields that must not change; sequences of writes are not explored.",
 [D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",M+"foreign_impls/",M+"value.rs",M+"get_field.rs",M+"key_path.rs"],
 [("derived *_mut accessors",D+"*.rs"),("ReflectMut/ScalarMut",M+"lib.rs")],
 ["field_mut","field_at_mut","fields_mut","get_mut","iter_mut","at_mut","get_field_mut","as_scalar_mut"])
p("C05","Key paths resolve to the part they name",
 "A key path evaluated on a value yields the part reached by following its steps one at a time (named field, numbered field, list/array index, map key, active variant), and nothing if any step does not apply to what has been reached; the empty path is the value itself. Mutable resolution finds the same part as immutable resolution, typed access additionally requires the part's concrete type, and no path makes it panic or picks a different element because an index or key was out of range.",
 ["inputs","programs"],"all values, all key paths of any length, including keys of every scalar type",
 "Tests evaluate about a dozen hand-written paths.",
 [M+"key_path.rs",M+"get_field.rs",M+"foreign_impls/btree_map.rs"],
 [("GetPath::at / at_mut",M+"key_path.rs"),("value_to_usize",M+"key_path.rs"),("GetField / GetFieldMut",M+"get_field.rs")],
 ["GetPath::at","GetPath::at_mut","get_at","get_at_mut","GetField::get_field","GetFieldMut::get_field_mut"])
p("C06","Static key paths describe what dynamic key paths reach",
 "Whenever a key path reaches a part of some value of a type, resolving that path (with each enum step naming the variant) on the type's descriptor gives the type of exactly that part; when the type gives nothing for a path that names its variants, no value of the type has such a part. Resolution on the descriptor terminates and never panics, also on recursive types.",
 ["inputs","programs"],"all types, all values of them and all key paths",
 "Tests resolve a handful of paths on two types and never compare with values.",
 [M+"type_info/mod.rs",M+"key_path.rs"],
 [("GetTypePath for Type",M+"type_info/mod.rs")],["GetTypePath::type_at"])
p("C07","Patching merges exactly what the two values share",
 "Patching a value with another replaces each scalar part that both have at the same place and with the same type, recursively, and leaves everything else (missing or surplus fields, elements or keys, parts of another kind or type) untouched; typed enums take over a source that builds the type and otherwise merge fields of the same variant, erased enum values merge fields of the same variant and otherwise take over the source. Outside enums taken over, patching never changes a list's or map's size; it never panics, leaves the source unchanged, and patching twice with the same source equals patching once.",
 ["inputs","histories","programs"],"all pairs of target and source values of any types, and sequences of patches",
 "Tests patch around ten fixed pairs; partial and mismatching sources nested in containers are not covered.",
 [D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",M+"foreign_impls/",M+"struct_.rs",M+"tuple.rs",M+"tuple_struct.rs",M+"enum_.rs",M+"lib.rs"],
 [("derived Reflect::patch",D+"*.rs"),("patch of containers, scalars and dynamic values",M+"*.rs")],
 ["Reflect::patch"])
p("C08","Reflected equality is structural equality",
 "Comparing two reflected values answers yes exactly when both have the same kind, the same set of fields, elements, keys or variant, and pairwise equal parts, scalars being equal only to equal scalars of the same type (floats as floats: a NaN equals nothing); it answers \"don't know\" only if an opaque part is reached before a difference. Whether it answers yes is symmetric and does not depend on whether either side is typed or erased, except that arrays differ from lists.",
 ["inputs","programs"],"all pairs of values of any types",
 "Tests compare a few pairs; near-equal pairs that differ in one nested part, in length or in variant kind are not explored.",
 [M+"reflect_eq.rs",M+"lib.rs"],[("reflect_eq",M+"reflect_eq.rs"),("PartialEq for dyn Reflect",M+"lib.rs")],
 ["reflect_eq","<dyn Reflect as PartialEq>::eq"])
p("C09","Erased values are totally ordered and hash consistently",
 "Equality, ordering and hashing of erased values (also nested ones and as map keys) obey the laws of a total order with consistent hashes, treating all NaNs as equal and greatest and both zeros as equal. Values of different kinds or scalar types are never equal, and values of one scalar type are ordered like the scalars themselves.",
 ["inputs"],"all pairs and triples of erased values",
 "Tests never compare erased values systematically; the laws quantify over pairs and triples.",
 [M+"value.rs",M+"struct_.rs",M+"tuple.rs",M+"tuple_struct.rs",M+"enum_.rs"],
 [("OrdEqHashValue",M+"value.rs")],["<Value as Ord>::cmp","PartialEq","Hash"])
p("C10","Reflected lists and arrays behave like the sequences they reflect",
 "For every history of reflected operations, a list behaves like the vector it reflects: push appends exactly one convertible element and otherwise changes nothing, pop and removal return exactly the element taken out and shift the rest, and out-of-range access or removal yields nothing and changes nothing. Arrays keep their length under every operation.",
 ["histories","inputs"],"all operation histories on lists and arrays of any element type, typed or erased",
 "Tests push and pop once on a Vec<i32>.",
 [M+"foreign_impls/vec.rs",M+"foreign_impls/array.rs",M+"array.rs",M+"list.rs"],
 [("List/Array for Vec",M+"foreign_impls/vec.rs"),("Array for [T; N]",M+"foreign_impls/array.rs")],
 ["List::push","List::pop","List::try_remove","Array::get","Array::get_mut","Array::len","Array::iter","Array::iter_mut"])
p("C11","Reflected maps behave like the maps they reflect",
 "For every history of reflected operations, a map behaves like the ordered map it reflects: a lookup, mutable lookup or removal finds an entry exactly when the key, converted to the map's key type, is present; insertion adds or replaces exactly one entry and returns the replaced value; unconvertible keys or values change nothing. Iteration visits every entry once in key order and agrees with the size.",
 ["histories","inputs"],"all operation histories on maps of any key and value type, typed or erased",
 "Tests insert and remove once in a BTreeMap<String, i32>.",
 [M+"foreign_impls/btree_map.rs",M+"map.rs"],[("Map for BTreeMap",M+"foreign_impls/btree_map.rs")],
 ["Map::get","Map::get_mut","Map::insert","Map::remove","Map::len","Map::iter","Map::iter_mut"])
p("C12","Type descriptors describe the declared type",
 "The descriptor of every type, recursive ones included, is built in finite time and lists exactly its non-skipped fields and variants in declaration order with their names, their types' descriptors, type names, metadata and documentation, element, key, value and length information. The descriptor obtained from any value equals the one of its static type, and every type reached inside a descriptor has the same description as when asked for directly.",
 ["programs"],"all type definitions",
 "Tests describe a few small types; recursion through enums or tuple structs, skips combined with metadata, and nested descriptors are not covered.",
 [M+"type_info/mod.rs",M+"type_info/graph.rs",D+"struct_named.rs",D+"tuple_struct.rs",D+"enum_.rs",D+"attrs.rs"],
 [("DescribeType::build",D+"*.rs"),("TypeGraph::get_or_build_node_with",M+"type_info/graph.rs")],
 ["DescribeType::type_descriptor","Type","GetMeta::meta","GetMeta::docs"])
p("C13","The type descriptor cache is safe under every schedule",
 "However many threads ask for type descriptors for however many types at the same time, every call terminates and returns the correct descriptor of the type asked for, and all calls for one type in a process return the very same descriptor. This also holds when building a descriptor asks for other descriptors, and a descriptor whose construction panics affects no other type or later call.",
 ["schedules","fault_sequences"],"all interleavings of any number of calling threads, with nested requests and panics during construction",
 "Tests run the cache single-threadedly per type; no test races first accesses, nests requests or lets construction fail.",
 [M+"type_info/mod.rs"],[("INFO cache: OnceBox<RwLock<HashMap>>",M+"type_info/mod.rs")],
 ["DescribeType::type_descriptor"],[("INFO","process-wide map from type to its leaked descriptor",M+"type_info/mod.rs")])
p("C14","Default values are complete and well typed",
 "A type reports that it has a default value exactly when asking for it yields one, and that value builds the type: scalars at zero, empty or false, lists and maps empty, arrays full length, structs and tuples with every field defaulted, enums at their first non-skipped variant. A type with a part that has no default has none, and every type, field and variant reached by a key path answers the same.",
 ["programs"],"all type definitions",
 "Tests ask for the default of one or two types.",
 [M+"type_info/mod.rs"],[("default_value / has_default_value",M+"type_info/mod.rs")],
 ["TypeDescriptor::default_value","Type::default_value","TypeAtPath::default_value"])
p("C15","Visiting a value visits every scalar once, in order",
 "Visiting a typed value calls the visitor for every scalar part of its non-skipped fields, elements, keys, values and active variant exactly once, in declaration and key order, with the method of the scalar's own type, and for every opaque part the opaque method with its type. The visit stops at the first error and returns it, and never panics on a value of the described type.",
 ["inputs","programs","fault_sequences"],"all types, values and error positions",
 "Tests visit one value with a visitor that never fails.",
 [M+"try_visit.rs"],[("try_visit",M+"try_visit.rs")],["try_visit"])
p("C16","Serialised values, key paths and descriptors round-trip",
 "Every erased value, key path and type descriptor that is serialised (with serde in self-describing or compact formats, or with speedy) and read back equals the original, including order of fields, map entries, integer extremes and, in each format that can represent them, float specials. A descriptor read back answers every question like the original.",
 ["inputs","programs"],"all erased values, key paths and type descriptors, in each supported format",
 "Tests serialise nothing or one value.",
 [M+"value.rs",M+"key_path.rs",M+"type_info/graph.rs",M+"struct_.rs",M+"enum_.rs",M+"lib.rs"],
 [("serde and speedy derives",M+"*.rs")],["serde::Serialize/Deserialize","speedy::Readable/Writable"])
p("C17","Clones are equal and independent",
 "Cloning any reflected value (without active skipped variants) yields a value of the same concrete type that is equal in every reflected part (in skipped ones too when the type is itself cloned, not rebuilt), and later changes to either never affect the other. Cloning neither loses precision, nor panics, nor changes the original.",
 ["inputs","histories","programs"],"all types, values and later changes",
 "Tests clone fixed values and do not change the clone afterwards.",
 [D+"attrs.rs",M+"lib.rs",M+"foreign_impls/",M+"value.rs"],
 [("clone_reflect",D+"attrs.rs")],["Reflect::clone_reflect","<dyn Reflect as ToOwned>::to_owned","ReflectOwned::clone"])
p("C18","Erased values can be used like the typed values they came from",
 "A value and its erased form offer the same kind, variant, fields, elements, entries and scalars under every reflected query and key path (an array's erased form being a list), and after the same sequence of reflected writes (scalars, and patches of parts without enums) both still erase to the same value. Erasing an erased value changes nothing.",
 ["inputs","histories","programs"],"all types, values, queries and sequences of writes",
 "Tests never compare the two forms side by side.",
 [M+"value.rs",M+"struct_.rs",M+"tuple.rs",M+"tuple_struct.rs",M+"enum_.rs"],
 [("Reflect for Value",M+"value.rs"),("StructValue / EnumValue / TupleValue / TupleStructValue",M+"struct_.rs, enum_.rs, tuple.rs, tuple_struct.rs")],
 ["Value","StructValue","EnumValue","TupleValue","TupleStructValue"])
p("C19","Key paths behave as sequences of steps",
 "Key paths built by any mix of builder calls, the macro, extension, popping and collecting consist of exactly the steps given, in order; iteration forwards and backwards, length and equality agree with that sequence. Breadcrumbs are exactly the non-empty prefixes, shortest first, and the text form is the concatenation of the steps' text forms: `.name`, `.number`, `[key]` and `::Variant`.",
 ["histories","inputs"],"all histories of key path operations and all keys",
 "Tests build a few fixed paths.",
 [M+"key_path.rs","crates/mirror-mirror-macros/src/lib.rs"],[("KeyPath, Key, Breadcrumbs",M+"key_path.rs"),("key_path! macro",M+"key_path.rs")],
 ["KeyPath","Key","Breadcrumbs","Display","key_path!"])
p("C20","Every value has one kind, seen identically by reference, mutably and owned",
 "A reflected value reports one kind, and the shared, mutable and owned projections, the as/into conversions and the projections of a boxed value all agree on it and give access to the same content; every other conversion fails. Downcasting succeeds exactly for the value's own concrete type, looking through boxes and erased wrappers.",
 ["inputs","programs"],"all types and values, all conversions",
 "Tests use a conversion only on a value where it succeeds.",
 [M+"lib.rs",M+"value.rs",M+"foreign_impls/boxed.rs",M+"foreign_impls/via_scalar.rs"],
 [("ReflectRef / ReflectMut / ReflectOwned",M+"lib.rs")],
 ["reflect_ref","reflect_mut","reflect_owned","as_*","into_*","downcast_ref","downcast_mut"])
p("C21","Debug output shows the reflected structure",
 "The debug text of every reflected value is well formed and determined by the value: types that keep their own Debug print exactly that, plain and pretty, and all others print their type name, variant, field names, elements and entries in order in the standard library's format, skipped fields left out (a tuple asked directly prints its type name). Formatting never panics.",
 ["inputs","programs"],"all types and values, plain and alternate formatting",
 "Tests check three or four fixed strings.",
 [M+"lib.rs",M+"foreign_impls/",D+"attrs.rs"],[("reflect_debug",M+"lib.rs")],["Reflect::debug","<dyn Reflect as Debug>"])
p("C22","Type names and pretty-printed types are faithful",
 "The simplified name of every type is its name with all module paths removed, recursively in generic arguments, references, tuples and arrays. Pretty-printing a type terminates for every type and prints its definition, naming exactly its non-skipped fields and variants with their simplified types in declaration order.",
 ["programs","inputs"],"all type definitions and type names",
 "Tests simplify a dozen names and pretty-print two types.",
 [M+"type_info/simple_type_name.rs",M+"type_info/pretty_print.rs"],
 [("SimpleTypeName",M+"type_info/simple_type_name.rs"),("PrettyPrintRoot",M+"type_info/pretty_print.rs")],
 ["SimpleTypeName::new_from_type","PrettyPrintRoot::pretty_print_root"])
p("C23","Dynamic values hold exactly what was put in",
 "Struct, tuple, tuple struct and enum values built by any sequence of builder calls or by collecting contain each field set, in the order first set, once per name with the value set last, and nothing else. Adding a field of the wrong sort to an enum value panics without damaging anything else.",
 ["histories"],"all sequences of builder calls",
 "Tests build fixed dynamic values without setting a name twice.",
 [M+"struct_.rs",M+"tuple.rs",M+"tuple_struct.rs",M+"enum_.rs"],
 [("StructValue::set_field, push_field, variant builders",M+"struct_.rs, tuple.rs, tuple_struct.rs, enum_.rs")],
 ["StructValue","TupleValue","TupleStructValue","EnumValue"])
p("C24","Cargo features change what is offered, not how it behaves",
 "Every behaviour above that is available without the standard library or with any subset of the optional features is the same as with all features on: the same values, descriptors, defaults, paths and equality.",
 ["configurations","inputs"],"all feature combinations that build",
 "The test suite runs only with all features on.",
 [M+"lib.rs",M+"type_info/mod.rs","crates/mirror-mirror/Cargo.toml"],[("cfg(feature = ...)",M+"lib.rs, type_info/mod.rs")],
 ["all public API"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
