#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os
DE = "yaserde_derive/src/de/expand_struct.rs"
DEE = "yaserde_derive/src/de/expand_enum.rs"
SE = "yaserde_derive/src/ser/expand_struct.rs"
SEE = "yaserde_derive/src/ser/expand_enum.rs"
IMPL = "yaserde_derive/src/ser/implement_serializer.rs"
EL = "yaserde_derive/src/ser/element.rs"
FIELD = "yaserde_derive/src/common/field.rs"
ATTR = "yaserde_derive/src/common/attribute.rs"
PRIM = "yaserde_derive/src/primitives.rs"
RT_DE = "yaserde/src/de/mod.rs"
RT_SE = "yaserde/src/ser/mod.rs"
RT_LIB = "yaserde/src/lib.rs"
RT_PRIM = "yaserde/src/primitives.rs"
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    return d
props = [
P("C01", "Serialize then deserialize gives back an equal value",
  "For every supported type declaration and every value of it whose strings are XML-representable and carry no leading or trailing white space where they become element text (and are not an empty text content of an optional or defaulted field, which leaves no trace in the document), serializing the value succeeds and deserializing the produced document yields an equal value. Serializing that value again yields the same document byte for byte.",
  ["inputs", "programs"], "All supported declarations (structs, enums, newtypes, generics; any combination of scalars, options, sequences, nesting, attributes, text, CDATA, flatten, rename, prefixes, defaults, skip conditions that omit only what reading restores) and all their values.",
  "The tests round-trip a few dozen fixed values of fixed declarations; the loss shows only for particular values (extremes, empty, special characters, long sequences) in particular field positions, and for combinations of annotations no test declares.",
  [SE, SEE, DE, DEE, FIELD, RT_DE, RT_SE],
  [("generated serializer: fields to elements/attributes/text", SE), ("generated deserializer: matching back by expanded name", DE), ("enum variants", SEE + ", " + DEE), ("naming shared by both directions", FIELD)],
  ["yaserde::ser::to_string", "yaserde::de::from_str"]),
P("C02", "The serialized document has exactly the structure the type declares",
  "The document produced for a value has the declared root name and, in declaration order, exactly one element per scalar, text or nested field, one per sequence item, one per present option, the declared attributes in the order of their declaration, and nothing else, every name carrying its declared rename and namespace prefix. The text of each is the canonical literal of the field's value.",
  ["inputs", "programs"], "All supported declarations and all their values.",
  "Tests compare a handful of literal documents; order, multiplicity, naming and placement have to hold for every mix of field kinds and annotations, including positions (third field, nested two levels down, inside a sequence) that no literal covers.",
  [SE, SEE, IMPL, EL, "yaserde_derive/src/ser/label.rs", "yaserde_derive/src/ser/namespace.rs", FIELD],
  [("struct inspector", SE), ("attribute collection", SE + ", " + IMPL), ("label building", FIELD + ", yaserde_derive/src/ser/label.rs"), ("namespace declarations", "yaserde_derive/src/ser/namespace.rs")],
  ["yaserde::ser::to_string"]),
P("C03", "Output is well-formed XML and carries every string verbatim",
  "Whatever XML-legal strings a value holds (markup characters, quotes, entity look-alikes, CDATA terminators, comments, line breaks, non-ASCII), and in whatever position (element text, attribute, text content, CDATA, sequence item, enum payload), the produced document is well-formed and an independent XML parser reads back exactly those strings in exactly those positions. No string can add, remove or change markup.",
  ["inputs"], "All XML-legal strings in every string-carrying position of every supported declaration.",
  "Tests use one or two strings with an ampersand or angle bracket; an escaping mistake shows only for a particular character sequence in a particular position.",
  [EL, SE, SEE, RT_SE, RT_LIB, RT_PRIM],
  [("element text events", EL), ("CDATA events", SE), ("attribute values", SE), ("enum payload text", SEE), ("emitter configuration", RT_SE)],
  ["bytes written by yaserde::ser"]),
P("C04", "Each field is populated from its own markup, and only from it",
  "Deserializing a document gives each field exactly the value written in the element, attribute or text declared for it; a sequence collects every occurrence in document order. A field whose markup is absent becomes its declared default, or absent for an option, or empty for a sequence, and for any other field deserialization fails.",
  ["inputs", "programs"], "All documents built for a supported declaration with any subset of the declared markup present, and all such declarations.",
  "Tests check a few present/absent combinations; the guarantee ranges over all subsets, all occurrence counts, and all field kinds.",
  [DE, "yaserde_derive/src/de/build_default_value.rs", FIELD],
  [("call visitors by (namespace, local name)", DE), ("attributes loading", DE), ("set_text", DE), ("struct builder: required, default, option, vec", DE)],
  ["yaserde::de::from_str"]),
P("C05", "Markup that carries no declared data never changes the result",
  "Adding to a document elements and attributes the type does not declare (with any content, including children named like declared fields), comments, processing instructions, or white space between elements of element-only content, or reordering attributes and fields of different names, leaves the deserialized value unchanged. So does rewriting the document lexically: CDATA for text, character references, quote style, empty-element tags, declaration, BOM or DOCTYPE.",
  ["inputs"], "All documents accepted by a struct type and all insertions, permutations and lexical rewritings of them, nested at any place.",
  "A metamorphic statement over pairs of documents; the tests hold at most a few fixed documents with one unknown element or comment.",
  [DE, DEE, RT_DE],
  [("skip of unknown elements", DE + " and Deserializer::skip_element in " + RT_DE), ("event filtering and parser configuration", RT_DE)],
  ["yaserde::de::from_str"],
  [("depth", "nesting depth seen by the event stream", RT_DE)]),
P("C06", "Namespaces are matched by URI, never by prefix",
  "Renaming prefixes, or moving namespace declarations to other ancestors or to the default namespace, never changes the deserialized value. Elements that share a local name but belong to different namespaces are never confused, elements in foreign namespaces count as unknown, and a document whose root is in a namespace other than the type's is rejected.",
  ["inputs"], "All documents of namespaced types, all prefix bindings that resolve to the same expanded names, and all foreign namespaces.",
  "Tests use the prefixes of the declaration itself, so prefix-based matching would pass them; only documents with different bindings of the same URIs distinguish the two.",
  [DE, DEE, ATTR, FIELD, "yaserde_derive/src/ser/namespace.rs"],
  [("namespace check of the root", ATTR), ("match on (namespace, local name)", DE), ("field namespace lookup", FIELD)],
  ["yaserde::de::from_str"]),
P("C07", "Deserialization of any bytes ends in a value or an error",
  "For every supported type and every byte sequence, malformed, truncated, mistyped, deeply mixed or invalidly encoded, deserialization terminates and returns either a value or an error. It never panics and never loops.",
  ["inputs", "programs"], "All byte sequences (of moderate nesting depth) and all supported declarations.",
  "Tests feed well-formed documents and five malformed ones; the panics and endless loops sit behind particular combinations of type and input.",
  [RT_DE, DE, DEE, RT_PRIM, PRIM],
  [("event loop termination on end of document", DE + ", " + DEE), ("error propagation from scalar parsing", DE + ", " + DEE), ("parser errors turned into Err", RT_DE)],
  ["return of yaserde::de::from_reader"]),
P("C08", "The result depends on the bytes read, not on how they are read",
  "Deserializing from a reader gives the same result as from the whole string, however the reader splits its output into chunks and however often it is interrupted. For a type whose root is a struct, a reader that fails before the root element has ended, or a document cut off before that point, yields an error, never a value.",
  ["inputs", "fault_sequences"], "All documents, all chunkings and interruptions of them, and a read fault or end of input at every byte position.",
  "No test injects a read fault or a split; every cut position of every document would have to be tried.",
  [RT_DE, DE],
  [("reader events and their errors", RT_DE), ("end element required to finish a struct", DE)],
  ["yaserde::de::from_reader"]),
P("C09", "A failed write is always reported, and never leaves a false success",
  "If the writer fails permanently or once, at any write call of a serialization, the serialization returns an error. Short writes and interruptions change neither the result nor the bytes, and whenever success is returned the writer has received the complete document.",
  ["inputs", "fault_sequences"], "All values of supported declarations, and a write failure, short write or interruption at every write call.",
  "No test uses a failing writer; the statement ranges over every write position of every declaration.",
  [EL, SE, SEE, IMPL, RT_SE, RT_LIB, RT_PRIM],
  [("map_err on every write", EL + ", " + SE + ", " + SEE + ", " + IMPL), ("scalar serializers", RT_LIB), ("primitive serializers", RT_PRIM)],
  ["yaserde::ser::serialize_with_writer"]),
P("C10", "All serialization entry points and configurations produce the same data",
  "Serializing a value to a string, to a string with configuration, or to a writer yields the same bytes for the same configuration; indentation, indent string and the document declaration change only white space between elements and the declaration, so that deserializing gives the same value. The content-only form is exactly the inside of the root element (with the root's namespace declarations repeated where they are needed).",
  ["inputs", "configurations"], "All values and all configurations (indent on/off, indent string, declaration on/off), through every public entry point.",
  "Tests exercise the default configuration and two or three literals with indentation; the agreement is over all values and configurations.",
  [RT_SE, IMPL],
  [("emitter configuration", RT_SE), ("content serialization skipping the root", RT_SE + ", " + IMPL)],
  ["yaserde::ser::{to_string,to_string_with_config,serialize_with_writer,to_string_content,serialize_with_writer_content}"]),
P("C11", "Skip and default conditions omit exactly the fields they name",
  "A field marked as skipped never appears in the output; a conditionally skipped field appears exactly when its condition is false, and a field with a default appears exactly when its value differs from the default, whether written as element, attribute, text, CDATA or flattened content. Other fields of the same value are unaffected, and an omitted field reads back as its default.",
  ["inputs", "programs"], "All declarations combining skip, conditional skip and default with every field kind and type, and all values.",
  "Tests cover each annotation on one or two field kinds with one value each; the statement is about every combination of annotation, field kind and truth value of the conditions.",
  [EL, SE, FIELD, "doc/skip_serializing.md"],
  [("condition generator for elements", EL), ("default/skip wrapper for attributes", FIELD), ("default on reading", DE)],
  ["yaserde::ser::to_string"]),
P("C12", "Flattening is the same as writing the inner fields inline",
  "A struct with flattened members writes the same document (the same attributes, the same fields in the same order) as a struct that declares the inner fields directly, and reads every document to the same data. An optional flattened member is present exactly when its required content is in the document, and flattened enums select the variant named by the inline element.",
  ["inputs", "programs"], "All pairs of a nested-flattened declaration and its inlined equivalent, all values and all documents for them, with any number of flattened members and levels.",
  "A differential statement between two declarations; the tests have about ten literals, one level deep.",
  [DE, SE, SEE, IMPL],
  [("unused events replayed to flattened members", DE), ("attributes of flattened members", SE + ", serialize_attributes in " + IMPL), ("skip of start/end for flattened content", SE)],
  ["yaserde::ser::to_string", "yaserde::de::from_str"]),
P("C13", "Enum values are written and selected by the declared variant name",
  "A unit variant is written as its declared name (as text, or in the declared tag attribute), a payload variant as an element of its declared name holding the payload, and reading selects the variant so named, alone, in options, in sequences, as attributes and as root. A name that matches no variant, or no variant at all, gives the default variant, and payload text that is not valid for the payload never produces a payload value.",
  ["inputs", "programs"], "All enum declarations (renames, tags, every payload type), all variants and payload values, in every field position, and all unknown variant names.",
  "Tests enumerate a few variants of six enums; variant selection has to hold for every variant, payload type and position.",
  [DEE, SEE, DE],
  [("variant match by element name, text or tag", DEE), ("variant serialization", SEE), ("attribute enums via wrapped document", DE)],
  ["yaserde::ser::to_string", "yaserde::de::from_str"]),
P("C14", "Derived primitive newtypes use exactly their literal form",
  "A newtype with a derived primitive, display-based or hexadecimal representation is written as exactly the text its formatting gives, in element, attribute, option, sequence and root position, and reading applies its own parser to exactly the text in the document. Text its parser rejects makes deserialization fail, and hexadecimal values written are read back equal.",
  ["inputs", "programs"], "All primitive newtypes over all scalars, display/parse newtypes and bit-flag newtypes; all values; valid and invalid literals.",
  "Tests have two newtypes with two values; representation errors (leading zeros, letters in hexadecimal, empty text, markup in the text) show only on particular values.",
  [PRIM, RT_PRIM],
  [("serialize_primitives / deserialize_primitives", RT_PRIM), ("generated Display and FromStr", PRIM)],
  ["yaserde::ser::to_string", "yaserde::de::from_str"]),
P("C15", "Numbers and booleans are exact, and bad literals never become values",
  "For every scalar type and every position (element, attribute, option, sequence, enum payload), every value of the type is written as its standard decimal literal and read back exactly, extremes, signed zeros, infinities and NaN included, and booleans also accept 1 and 0. A literal outside the type's range or grammar never yields a value: it is an error for attributes and required fields, and at most an absent item elsewhere.",
  ["inputs"], "All values and literals of the twelve scalar types in every position.",
  "Tests use one or two small values per type; truncation, sign, precision and range mistakes show only at the edges of each type in each of several separately generated code paths.",
  [DE, DEE, EL, SE, SEE, FIELD, RT_LIB],
  [("type-directed visitors", FIELD + ", " + DE), ("enum payload visitors", DEE), ("text formatting", EL)],
  ["yaserde::ser::to_string", "yaserde::de::from_str"]),
P("C16", "Hand-written implementations see a faithful event stream",
  "Peeking never consumes or changes the next event; the depth always equals the number of elements opened and not yet closed; skipping consumes exactly the rest of the current element and reports each of its events once; reading an inner value runs the callback inside exactly one element and fails when the element is not closed there. The events delivered are those of the document in order, without comments, processing instructions and declarations, so hand-written readers and writers compose with derived ones in any field position.",
  ["histories", "inputs"], "All documents and all sequences of peek, next, skip and read operations on them; hand-written types in every field position.",
  "Tests only exercise two hand-written types; the statement is about every interleaving of operations on every document.",
  [RT_DE, RT_SE],
  [("peek/next/skip/read primitives", RT_DE), ("start-name and skip flags for writers", RT_SE)],
  ["yaserde::de::Deserializer", "yaserde::ser::Serializer"],
  [("peeked", "event read ahead", RT_DE), ("depth", "open elements", RT_DE)]),
P("C17", "Names are resolved at their own nesting level",
  "Values nested at any depth, siblings, sequence items and recursive types never take data from each other, even when the same names occur as type, root, field, attribute and nested field. Every item of a sequence is read on its own: what one item holds or lacks never affects another.",
  ["inputs", "programs"], "All declarations whose names coincide across levels, recursive declarations, and all their values and documents.",
  "Needs coinciding names at different levels and several items with different missing parts; the tests have one such document.",
  [DE, DEE, RT_DE],
  [("depth bookkeeping and end-element matching", DE + ", " + RT_DE), ("root consumed before fields are matched", DE)],
  ["yaserde::de::from_str"],
  [("depth", "per-struct depth counter", DE)]),
P("C18", "Every supported declaration compiles and works like its plain form",
  "Deriving on a declaration built from the documented types and annotations, with any identifiers (raw identifiers, renames with dots or dashes, module-qualified types, generics), compiles, for serialization alone, deserialization alone or both. The way a type is written down (type paths, field order in the source of independent types, visibility, derives, unrelated annotations) does not change the documents it reads and writes.",
  ["programs"], "All declarations made of supported types and annotations.",
  "Each test is one fixed declaration; which declarations compile is a statement over programs.",
  [FIELD, ATTR, DE, DEE, SE, SEE],
  [("identifiers of generated visitors and variables", FIELD), ("type paths to field kinds", FIELD), ("attribute parsing", ATTR)],
  ["rustc on generated declarations", "yaserde::ser::to_string"]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
