#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Localised text arrays keep exactly one default, first, through every edit",
 "The constructors, every adding or setting edit and the explicit repair leave a non-empty localised text array with exactly one default entry, the first one, and removing a language keeps the array in that form when it was. "
 "Each edit changes only what it names: adding appends the pair, setting replaces the value of the first entry with that language or appends it, removing drops only the first entry with that language, adding a default makes that pair first and the only default; every other (value, language) pair survives, and empty values are never stored. "
 "Looking up a language returns the value of the first entry with that language, looking up no language returns the default's value, a missing language returns the empty string, and no call panics.",
 ["inputs", "histories"], "all array contents satisfying or not satisfying the invariant, all languages and values, all sequences of edits",
 "The tests build a few two-language arrays; the guarantee is over every array content and every order of edits, including arrays without any default.",
 ["xmp/array.go"],
 [("AltString edits and EnsureDefault", "xmp/array.go NewAltString..RemoveLang"), ("AltString lookups", "xmp/array.go Default/Index/Get")],
 ["(*AltString).Add/AddUnique/AddDefault/Set/RemoveLang/EnsureDefault", "AltString.Get/Default/Index"])

prop("P02", "Plain list edits have exact sequence semantics and touch nothing else",
 "For every list type (string lists and bags, integer lists, alternative-text bags, identifier bags) adding appends one element at the end and leaves the earlier elements as they were; adding-unique appends only when absent; empty strings are never stored by add, add-unique or the constructors. "
 "Index returns the position of the first equal element or -1, contains agrees with it, and remove deletes exactly the first equal element and keeps the order of all the others. "
 "No call panics, and no call changes any other list.",
 ["inputs", "histories"], "all list contents, lengths and capacities, all values",
 "Tests never call most of these and cannot cover every length, position of the match and spare capacity.",
 ["xmp/array.go", "models/xmp_base/types.go"],
 [("StringList/StringArray edits", "xmp/array.go"), ("IntList/IntArray/AltStringArray", "xmp/array.go"), ("IdentifierArray", "models/xmp_base/types.go")],
 ["Add, AddUnique, Index, Contains, Remove, New*"])

prop("P03", "Version numbers are totally ordered and version ranges agree with that order",
 "Before, after and equal on versions form the lexicographic total order on (major, minor, patch): exactly one of the three holds for any two versions and before/after are transitive. "
 "A version lies between two bounds exactly when it is not before the lower and not after the upper bound, where a zero lower (upper) bound means unbounded below (above), and the zero version, which means no version restriction, lies in every range. "
 "Parsing accepts one to three dot-separated integers, missing parts are zero, and parsing the printed form of a version gives that version back.",
 ["inputs"], "all versions with integer components, all pairs of bounds",
 "A handful of concrete versions cannot show totality, transitivity or the range law for all triples.",
 ["xmp/semver.go", "xmp/marshal.go", "xmp/typeinfo.go"],
 [("Version order", "xmp/semver.go Equal/Before/After/Between/IsZero"), ("ParseVersion/String", "xmp/semver.go")],
 ["Version methods; version-restricted fields on encode"])

prop("P04", "Path algebra: segments, prefix, push and pop are mutually consistent",
 "A path is a namespace prefix plus a list of segments: its length is the number of segments, its field list is exactly those segments, pushing appends segments, popping removes and returns the last one, popping the front removes and returns the first one (moving a segment's own namespace prefix, if any, to the remaining path). "
 "Appending an index or a language to a path with a plain last segment (no brackets) yields a last segment that, when parsed, gives back the same name and that index or language, and parsing a segment without brackets gives the name itself with no index and no language. "
 "None of these operations panics on any string.",
 ["inputs"], "all strings as paths and segments, all non-negative indices",
 "The path tests use a fixed list of well-formed paths; the laws are about all prefixes, segment counts and odd strings.",
 ["xmp/path.go", "xmp/namespace.go"],
 [("Path methods", "xmp/path.go"), ("parsePathSegment", "xmp/path.go"), ("prefix helpers", "xmp/namespace.go stripPrefix/getPrefix/hasPrefix")],
 ["Path.Fields/Len/Push/Pop/PopFront/AppendIndex/AppendIndexString/NamespacePrefix"])

prop("P05", "Path/value lists: find, unique and diff report exactly the differences",
 "Adding a path/value pair appends it with its flags unless the value is empty; finding a path returns the first entry with exactly that path, or nothing. "
 "Unique keeps, in order, exactly the first entry of every run of equal consecutive paths (for lists without empty paths). "
 "The difference of two non-empty lists (of non-empty values, each path once per list) contains exactly: a delete entry for every old entry whose path is missing in the new list, a replace entry for every old entry whose path has a different value in the new list, and a create entry for every new entry whose path is missing in the old list, in that order, and neither input is modified.",
 ["inputs"], "all lists of path/value pairs",
 "Diff tests compare a few example lists; the law is over all list pairs.",
 ["xmp/path.go"],
 [("PathValueList.Add/AddFlags/Find/Unique/Diff", "xmp/path.go")],
 ["PathValueList methods"])

prop("P06", "Sync flag names parse to exactly their flag sets; unknown names are rejected",
 "Each flag or flag-set name, in any letter case, parses to exactly its documented combination, and a comma-separated list parses to the union of its parts. "
 "A list with any unknown or empty part is rejected with an error and no flags, and text-decoding leaves the target unchanged on error. "
 "The single flags are distinct bits.",
 ["inputs"], "all strings",
 "No test parses flag names; the union law and the rejection law range over all lists.",
 ["xmp/sync.go"],
 [("ParseSyncFlag/ParseSyncFlags/UnmarshalText", "xmp/sync.go")],
 ["ParseSyncFlag, ParseSyncFlags, (*SyncFlags).UnmarshalText"])

prop("P07", "Setting or syncing a path changes a document only as the flags allow",
 "A set or sync whose flags do not permit the needed operation (create to fill an empty or missing destination, where append or unique also suffice for a set; replace to overwrite a scalar; delete when the new value is empty) leaves every existing value unchanged, and so does one whose source and destination values are already equal. "
 "When the operation is permitted the destination is written once with exactly the (converted) source value and the given flags (the default set when none are given), and the document is marked dirty exactly when that write succeeded or a new model had to be attached. "
 "With the no-fail flag no operation refused by the flags and no failed write is reported as an error; without it the set call reports every refusal as an error, and a path that names only a namespace removes it when delete is permitted.",
 ["inputs", "histories"], "all flag combinations, all source and destination values, present or missing models and namespaces",
 "The sync tests try a few flag/value combinations on one model; the policy table is over all flag sets and all states of source and destination.",
 ["xmp/sync.go", "xmp/path.go"],
 [("Sync", "xmp/sync.go Document.Sync/SyncMulti"), ("SetPath policy", "xmp/path.go Document.SetPath")],
 ["Document.SetPath, Document.Sync, Document.SyncMulti, IsDirty"])

prop("P08", "Every XMP packet in a byte stream is found, however the stream is chunked",
 "Scanning a stream returns, in order and byte for byte, every XMP packet it contains: each packet runs from its begin marker to the end of its end marker, provided its header carries the XMP packet id, and bytes outside packets never appear in the result. "
 "The result does not depend on how the reader splits the stream into chunks (for packets below 64 KB, whose id stands in the header within the first 51 bytes). "
 "Scanning never panics, and reports end-of-file when there is no packet.",
 ["inputs", "schedules"], "all byte streams and all ways of splitting them into reads",
 "Tests scan sample files through one reader with large reads; marker positions relative to read boundaries and truncated or tiny packets are never exercised.",
 ["xmp/reader.go"],
 [("splitPacket", "xmp/reader.go"), ("isXmpPacket", "xmp/reader.go"), ("ScanPackets", "xmp/reader.go")],
 ["ScanPackets, Scan"])

prop("P09", "Size-limited output never exceeds its limit and reports overflow",
 "With a size limit set, the number of bytes reaching the underlying writer never exceeds the limit, and they are always a prefix of the unlimited output; if anything had to be cut, encoding fails with the overflow error. "
 "Without a limit every byte is passed on unchanged and errors of the underlying writer are returned. "
 "With padding enabled and a limit large enough, the finished packet is exactly as long as the limit and ends with the packet footer.",
 ["inputs", "fault_sequences"], "all limits, all sequences of write sizes, all short or failing underlying writers",
 "No test sets a size limit; the guarantee is over every limit and every split of the output into writes.",
 ["xmp/marshal.go"],
 [("countWriter.Write", "xmp/marshal.go"), ("padding loop in Encode", "xmp/marshal.go Encode step 4.4")],
 ["Encoder.SetMaxSize/SetFlags/Encode"])

prop("P10", "Namespace filters parse, print and select exactly the named namespaces",
 "Parsing a filter string puts every '-' item into the exclude list and every other item into the include list, in order, expanding group names to the group's registered namespaces; the lenient parser keeps unknown names, the strict parser rejects them with an error, and empty items are skipped. "
 "Printing a filter lists its include names with '+' and then its exclude names with '-', and applying a filter first keeps only included namespaces when there are any, then removes excluded ones, reporting whether anything was removed. "
 "A namespace list contains a namespace exactly when an element has the same name.",
 ["inputs", "configurations"], "all filter strings, all registry contents, all documents",
 "Filter behaviour is untested except through samples; the laws range over all strings and registries.",
 ["xmp/filter.go", "xmp/namespace.go", "xmp/document.go"],
 [("ParseFilter/ParseFilterStrict/String/Apply", "xmp/filter.go"), ("NamespaceList.Contains/ContainsName/RemoveDups", "xmp/namespace.go")],
 ["ParseFilter, ParseFilterStrict, Filter.String, Filter.Apply"])

prop("P11", "The namespace registry is consistent, hands out copies and is safe to share",
 "After registering a namespace it is found by its prefix and by its URI, it is listed in every group it was registered for, and all other registrations are unchanged (except those it replaces under the same prefix or URI). "
 "Group listings are private copies, so changing a returned list never changes the registry, and an unregistered prefix or group gives an error. "
 "Every access to the shared registry and type caches happens while holding their lock and every lock is released on return, so concurrent use from many goroutines and independent documents is free of data races.",
 ["inputs", "histories", "schedules"], "all registration histories, all goroutine interleavings",
 "Tests run single-threaded over the statically registered namespaces; races and aliasing need all schedules and histories.",
 ["xmp/registry.go", "xmp/typeinfo.go", "xmp/node.go", "xmp/namespace.go"],
 [("Registry methods and lock", "xmp/registry.go"), ("type info cache lock", "xmp/typeinfo.go getTypeInfo"), ("node pool counters", "xmp/node.go NewNode/Close")],
 ["Register, GetNamespace, GetGroupNamespaces, Registry.GetPrefix/Short/Namespaces/Prefixes"])

prop("P12", "Node lists and attributes stay unique by name and edits are local",
 "Adding a node replaces the first existing node with the same full local name or is appended, and adding an attribute overwrites the value of the existing attribute with the same local name or is appended, so lists that are unique by name stay unique; appending always adds exactly one node at the end. "
 "Finding returns the first node whose name matches or whose model can handle the name, removing deletes exactly that node and keeps the order of the rest, attribute lookup returns exactly the matching attributes in order. "
 "All other nodes and attributes are unchanged and no call panics, except that adding or removing a node to or from itself is refused by a panic.",
 ["inputs", "histories"], "all node lists, names and attributes",
 "Tests only go through whole documents with a few nodes.",
 ["xmp/node.go", "xmp/xmp_ext.go"],
 [("NodeList.AddNode/AppendNode/FindNodeByName/Index/RemoveNode", "xmp/node.go"), ("Node.AddAttr/GetAttr/AttrList", "xmp/node.go"), ("Extension lookup", "xmp/xmp_ext.go FindNodeByName")],
 ["NodeList and Node methods"])

prop("P13", "New nodes are blank, closed trees are fully released, copies are independent",
 "A new node has exactly the requested name and no attributes, children, model or value, whatever was stored in a recycled node before. "
 "Closing a node clears it and every node below it and never releases a node that is not part of its tree. "
 "Copying a node yields an equal tree that shares no node and no attribute storage with the original, so editing one never changes the other.",
 ["inputs", "histories", "schedules"], "all node trees, all histories of allocating and closing nodes",
 "Recycling only shows through particular histories of close and reuse across documents.",
 ["xmp/node.go"],
 [("NewNode/Close node pool", "xmp/node.go"), ("copyNode/copyNodes", "xmp/node.go"), ("Clear", "xmp/node.go")],
 ["NewNode, Node.Close, copies made on encode and decode"])

prop("P14", "Documents add, find, remove and filter namespaces exactly",
 "Adding a model makes it retrievable under its namespaces, replaces only a model held by the same node and marks the document dirty; making a model returns the existing one if there is one. "
 "Removing a namespace drops exactly the first top-level node of that name and forgets that namespace, filtering keeps exactly the nodes whose namespace is in the keep list (and nodes of unknown namespaces), and all other nodes keep their order and content; the return value says whether something was removed, and the document becomes dirty exactly then. "
 "Namespaces known to a document are found by URI and by prefix, with document-local namespaces taking precedence over globally registered ones.",
 ["inputs", "histories"], "all documents, namespaces and keep/remove lists",
 "Tests remove nothing and add models one at a time; the frame condition is over all documents.",
 ["xmp/document.go"],
 [("RemoveNamespace(s)/FilterNamespaces", "xmp/document.go"), ("AddModel/MakeModel/FindModel/FindNode", "xmp/document.go"), ("findNsByPrefix/findNsByURI", "xmp/document.go")],
 ["Document methods"])

prop("P15", "Value types survive their text form and reject or ignore bad text without harm",
 "For every basic value type (booleans, optional integers, booleans and floats, trimmed optional strings other than the empty spellings, byte-wise integers, rationals, identifiers, paths, non-empty string lists of single-line items, dates to the second) decoding the encoded text of a value gives that value back. "
 "Decoding arbitrary text never panics; on an error, and for the documented 'empty' spellings, the target keeps its previous value. "
 "JSON encoding of optional floats maps NaN and the infinities to strings that decode to the same value.",
 ["inputs"], "all values of each type, all byte strings as text",
 "Round-trip tests use a few values; extreme values, signs and malformed text are not sampled.",
 ["xmp/units.go", "xmp/xmp_types.go", "xmp/array.go"],
 [("text codecs", "xmp/units.go, xmp/xmp_types.go"), ("Rational parsing and gcd", "xmp/xmp_types.go")],
 ["MarshalText/UnmarshalText/MarshalJSON/UnmarshalJSON"])

prop("P16", "Raw node paths: a value that was set is read back and nothing else changes",
 "After a permitted set of a value at a path inside a raw (model-less) node tree, reading that path returns the value; after a permitted delete it returns the empty string. "
 "Values at paths that are not prefixes or extensions of the set path are unchanged, and reading never changes the tree. "
 "No path, value or flag combination makes reading or setting panic.",
 ["inputs", "histories"], "all node trees, paths, values and flag sets",
 "Path tests set a handful of fixed paths on fresh documents.",
 ["xmp/node.go"],
 [("Node.GetPath", "xmp/node.go"), ("Node.SetPath", "xmp/node.go")],
 ["Document.SetPath/GetPath on namespaces without a model"])

prop("P17", "Writing a document and reading it back preserves its content",
 "Encoding a document to XML or JSON and decoding the result gives a document with the same namespaces, the same path/value listing and the same rdf:about, including properties of namespaces no model knows. "
 "Encoding does not change the document's values, and encoding the decoded document again gives the same bytes.",
 ["inputs"], "all documents built from models, lists, localised text, extensions and raw nodes",
 "Tests round-trip the sample files; arbitrary combinations of values and unknown properties are not covered.",
 ["xmp/marshal.go", "xmp/unmarshal.go", "xmp/json.go", "xmp/array.go", "xmp/xmp_ext.go"],
 [("Encoder/Decoder", "xmp/marshal.go, xmp/unmarshal.go"), ("JSON mapping", "xmp/json.go"), ("array encoding", "xmp/array.go MarshalArray/UnmarshalArray")],
 ["Marshal, Unmarshal, MarshalJSON, UnmarshalJSON"])

prop("P18", "Reading arbitrary bytes never panics",
 "Decoding any byte string as XMP/XML or XMP/JSON, with all bundled models registered, either succeeds or returns an error; it never panics or loops. "
 "The same holds for every text-decoding value type of the bundled models.",
 ["inputs"], "all byte strings",
 "Tests only feed valid samples.",
 ["xmp/unmarshal.go", "xmp/json.go", "xmp/node.go", "models/"],
 [("Decoder", "xmp/unmarshal.go"), ("UnmarshalJSON", "xmp/json.go"), ("UnmarshalText in models", "models/*/types.go")],
 ["Unmarshal, Document.UnmarshalJSON, UnmarshalText"])

prop("P19", "Merging adds the other document's values and keeps every existing one",
 "After merging a second document with merge flags every scalar value of the first document is unchanged, every value of the second whose path was empty in the first is present, and every list element of either document is present once. "
 "The second document's values are unchanged.",
 ["inputs"], "all pairs of documents",
 "One merge test exists at most; the frame is over all document pairs.",
 ["xmp/sync.go", "xmp/path.go"],
 [("Merge", "xmp/sync.go"), ("ListPaths/SetPath", "xmp/path.go")],
 ["Document.Merge"])

prop("P20", "Domain value conversions of the bundled models are lossless and total",
 "The EXIF flash value converts between its numeric and structured form without losing a bit, and frame rates (base at least 1), frame counts, media parts, time codes with non-negative fields, track numbers, points, byte lists and content ratings without a bar decode their own encoded text to the same value. "
 "Coordinates and dates convert to their XMP form, and value tables decode, without changing the values they denote. "
 "Converters and decoders never panic, whatever text they are given, and a decoder that reports an error leaves its target unchanged.",
 ["inputs"], "all numeric values and all strings",
 "Tests cover a few sample files per model.",
 ["models/exif/types.go", "models/xmp_dm/types.go", "models/crs/types.go", "models/id3/types.go", "models/itunes/types.go", "models/qt/types.go", "models/tiff/types.go"],
 [("exif types", "models/exif/types.go"), ("xmpDM types", "models/xmp_dm/types.go"), ("other model types", "models/*/types.go")],
 ["MarshalText/UnmarshalText of model types"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
