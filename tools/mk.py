#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, E, R = "svd-parser/src/", "svd-encoder/src/", "svd-rs/src/"

def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mechanism=mechanism, technique=technique, note=note, state=state)

PROPS = [
prop("P01", "Parsing is total: any input gives a device or an error",
 "Reading any text, at every validation level and with any combination of reading options (ignoring enumerated values, expansion of arrays and derivations, expansion of properties), ends with a device or an error value and never with a panic, an abort or an endless loop (documents whose arrays or nesting exceed the memory excepted). A device that was read this way at the weak or strict level can also be written back, expanded and queried without panicking.",
 ["inputs", "configurations"], "every text (random bytes, mutated SVD documents, documents with hostile numbers, names, ranges, dimensions and references) and every parser configuration",
 "A crash needs one particular malformed value among unboundedly many; the tests feed a few well-formed snippets.",
 [P+"lib.rs", P+"types.rs", P+"bitrange.rs", P+"dimelement.rs", P+"expand.rs", P+"writeconstraint.rs"],
 [("entry points", P+"lib.rs parse, parse_with_config"), ("numeric conversion", P+"types.rs"), ("range checks", P+"bitrange.rs, svd-rs/src/bitrange.rs"), ("array index parsing", R+"dimelement.rs"), ("expansion", P+"expand.rs")],
 "structure-aware fuzzing (byte, token and tree mutation) with a crash, overflow and hang oracle",
 "Bounded by generated inputs; array sizes and nesting are kept within memory and stack limits. Built with overflow checks on."),
prop("P02", "Parsing yields exactly what the document says",
 "For every document accepted by the reader, each element and attribute of the document that the data model knows about appears in the resulting device with exactly the written value, in document order, and nothing else appears; omitted optional items are absent and omitted device items take their documented defaults. This holds at every validation level and through the default entry point.",
 ["inputs", "configurations"], "every valid document over all elements of the supported schema, all levels",
 "The tests read single elements with one or two values; a swapped, dropped or defaulted item shows only for the combination that uses it.",
 [P+"device.rs", P+"peripheral.rs", P+"cluster.rs", P+"register.rs", P+"field.rs", P+"enumeratedvalue.rs", P+"cpu.rs", P+"elementext.rs"],
 [("per-element readers", P+"*.rs impl Parse"), ("child access helpers", P+"elementext.rs")],
 "model-based generation of documents, reference-model oracle",
 "Generated documents compared with an independent model of the device they were rendered from."),
prop("P03", "Encoding then parsing gives the device back",
 "Writing a valid device and reading the text again, at any level that accepts the device, gives a device equal to the original in every item. Writing is deterministic, writing the re-read device gives the identical text, and the text is the one the default configuration produces.",
 ["inputs"], "every valid device (weak and strict), with arrays, nested clusters, derivations and all optional items",
 "Round-trip losses depend on which optional items and which text characters occur together; tests encode a handful of fixed elements.",
 [E+"lib.rs", E+"device.rs", E+"peripheral.rs", E+"cluster.rs", E+"register.rs", E+"field.rs", E+"dimelement.rs"],
 [("per-element writers", E+"*.rs impl Encode*"), ("child writer helper", E+"lib.rs modify"), ("readers", P+"*.rs")],
 "generated devices, round-trip and determinism oracle",
 "Texts have no surrounding white space; carriage returns are a recorded known finding."),
prop("P04", "Number and bit range formats never change the meaning",
 "For every choice of number format for each configurable kind of number (decimal, lower or upper hexadecimal, optionally padded to 8 or 16 digits) and every choice of bit range notation, the written text reads back as the same device apart from the notation of bit ranges. Each number is written in exactly the form its format prescribes, and kinds whose format was not changed keep their documented default form.",
 ["inputs", "configurations"], "every valid device and every assignment of formats to the configurable kinds",
 "The number of format assignments is astronomical and each affects only some elements; tests use the default configuration.",
 [E+"config.rs", E+"lib.rs", E+"bitrange.rs", E+"field.rs", E+"register.rs", E+"registerproperties.rs"],
 [("formats", E+"config.rs NumberFormat::format_number"), ("use of each format", E+"*.rs config.format_number"), ("range notation", E+"bitrange.rs, field.rs")],
 "generated (device, configuration) pairs, round-trip plus literal-form oracle",
 "Every number in the output is located by an independent XML reader and compared with a reference formatter."),
prop("P05", "Sorting options only permute, by the requested key, stably",
 "For every combination of sorting options, the written document contains exactly the same elements as without sorting, and peripherals, registers and clusters of a peripheral, and fields appear ordered by the requested key (address or offset ascending, descending, or name), with the requested grouping (derived last, registers or clusters first) applied on top, elements that compare equal keep their original order. Children of clusters, enumerated values, interrupts and address blocks are never reordered.",
 ["inputs", "configurations"], "every device (including equal keys and addresses of any size) and every sorting configuration",
 "Wrong keys, unstable sorting and wrap-around show only for particular multisets of keys.",
 [E+"config.rs", E+"device.rs", E+"peripheral.rs", E+"register.rs", E+"cluster.rs"],
 [("peripheral order", E+"device.rs"), ("register and cluster order", E+"peripheral.rs sort"), ("field order", E+"register.rs")],
 "generated (device, sorting) pairs against a reference stable sort",
 "The reference sort works on the harness's own model; output order is read by parsing the text."),
prop("P06", "Identifier formatting renames only, and references follow",
 "When identifier formats are configured, only the names the format is documented for change; a formatted name differs from the original only in letter case and in separators (underscores, hyphens, blanks), the %s placeholder of arrays is kept, and the requested case (snake or constant, for each kind of element) results. References to a renamed element are renamed the same way, so every derivation that resolved before still resolves to the same element.",
 ["inputs", "configurations"], "every device with array and non-array names (of at least one letter or digit) and derivations of every form, every assignment of name formats",
 "Name handling depends on word boundaries, placeholder position and how references are qualified, in combination; no test covers it.",
 [E+"config.rs", E+"lib.rs", E+"device.rs", E+"peripheral.rs", E+"cluster.rs", E+"register.rs", E+"field.rs", E+"enumeratedvalues.rs", E+"dimelement.rs", E+"interrupt.rs"],
 [("case change", E+"config.rs IdentifierFormat, change_case"), ("path change", E+"config.rs change_path_case")],
 "generated (device, formats) pairs; case invariants, reference words and reference-resolution oracle",
 "Case results are compared exactly for names made of plain words; for odd names only the letter-preservation laws are checked."),
prop("P07", "Written documents are well formed and in schema order",
 "Every written document is well-formed XML, and in every element the children appear in the order the CMSIS-SVD schema prescribes, each at most as often as the schema allows, with no element or attribute the schema does not know. This holds for every device and every encoder configuration.",
 ["inputs", "configurations"], "every valid device and every encoder configuration",
 "Strict consumers reject misplaced elements, which happen only when a rarely used optional item is present next to others.",
 [E+"device.rs", E+"peripheral.rs", E+"cluster.rs", E+"register.rs", E+"field.rs", E+"cpu.rs", E+"dimelement.rs", E+"enumeratedvalues.rs", E+"interrupt.rs"],
 [("writers", E+"*.rs impl Encode"), ("name-first merge", E+"lib.rs modify"), ("array merge", E+"dimelement.rs, *.rs Array arms")],
 "generated devices and configurations, independent strict XML reader and schema-order table as oracle",
 "The order table is written from the CMSIS-SVD schema by hand."),
prop("P08", "Numeric and boolean literals mean what the format says",
 "Decimal, 0x/0X hexadecimal, 0b and # binary literals (with don't-care digits read as zero), of any case and padding, are read as the number they denote wherever a number is allowed, and true/false/1/0 as booleans. A literal that denotes no number or one too large for its item (32 or 64 bits) is an error, never another value.",
 ["inputs"], "every literal text in every numeric and boolean position",
 "Overflow boundaries, prefixes, case and padding multiply; tests try a few literals in one position.",
 [P+"types.rs", P+"elementext.rs"],
 [("literal readers", P+"types.rs"), ("typed child access", P+"elementext.rs get_child_u32, get_child_u64, get_child_bool")],
 "generated literals against a reference reader, in every position",
 "A leading plus sign is left unspecified."),
prop("P09", "The bit range notations are equivalent and checked",
 "The three notations for a field's position (bitRange, lsb/msb, bitOffset/bitWidth) read as the same offset and width whenever they denote the same bits, each remembering its notation; a range whose high bit is below its low bit, that is malformed or that overflows is an error. Low bit, high bit and bit mask of a range agree with its offset and width for every range within 64 bits.",
 ["inputs"], "every pair of bit positions and every range text, in documents, in the standalone range reader and in serialized data",
 "Boundary positions and malformed texts are sampled by tests at two or three points.",
 [P+"bitrange.rs", R+"bitrange.rs"],
 [("document notations", P+"bitrange.rs"), ("range arithmetic", R+"bitrange.rs"), ("masks", R+"field.rs bitmask, svd-rs/src/bitrange.rs")],
 "generated ranges and texts, differential between notations and against reference arithmetic",
 "Zero widths are only considered where validation is on."),
prop("P10", "Layout of the XML text does not matter",
 "White space between elements, comments, processing instructions, CDATA sections, character and entity references, attribute quoting, line ends, an XML declaration or byte order mark, unknown attributes, unknown elements (outside of the lists of peripherals, registers, fields, enumerated values and constraints, where they are errors), and the order of differently named children never change the device that is read.",
 ["inputs"], "every pair of documents that differ only in layout",
 "There are unboundedly many layouts of one document; tests use one.",
 [P+"lib.rs", P+"elementext.rs", P+"device.rs", P+"register.rs"],
 [("child access by name", P+"elementext.rs"), ("text access", P+"elementext.rs get_text"), ("list readers", P+"device.rs, peripheral.rs, cluster.rs, register.rs, field.rs")],
 "metamorphic: one model printed in two random layouts must read the same",
 "Comments inside the text of a leaf element change it: recorded as a known finding."),
prop("P11", "Any single defect in a document is rejected and located",
 "A document with one defect (a mandatory element missing or empty, an unknown keyword, a malformed or too large number, an inconsistent value) is rejected, wherever the defect is. The error chain states the line and column of the offending element (or of its parent if it is missing) and names the peripheral, register, field, enumerated value or interrupt that contains it, and its last message says what is wrong: the tag that is missing or empty, the keyword that is not known, the number of indexes found and expected, the array name without a placeholder.",
 ["inputs"], "every (document, position, kind of defect) triple",
 "Positions times kinds are too many for examples; a reader that swallows one error kind in one place goes unnoticed.",
 [P+"lib.rs", P+"elementext.rs", P+"types.rs", P+"peripheral.rs", P+"register.rs", P+"field.rs", P+"enumeratedvalue.rs", P+"interrupt.rs"],
 [("positions", P+"lib.rs At, SVDErrorAt"), ("containers", P+"peripheral.rs, register.rs, field.rs with_context"), ("tag errors", P+"elementext.rs")],
 "fault injection into generated documents; rejection, position and context oracle",
 "Clusters are not named in the chain; an unreadable isDefault is tolerated by design."),
prop("P12", "Validation rules hold by level, everywhere and monotonically",
 "At the weak level a device is accepted exactly if it satisfies the weak rules (at least one peripheral, nonzero field widths, enumerated values that fit their field and have a value or are the default, nonempty value lists, write ranges in order and within the field, reset values that fit), and at the strict level exactly if it also satisfies the strict ones (names of allowed characters, nonempty lists, compatible usages, consistent reset masks, mandatory device items). What a stricter level accepts every laxer one accepts, with the same device, and the reader, the builders and whole-device revalidation agree. The error reported names one of the rules that are broken, with the values that break it.",
 ["inputs", "configurations"], "every device with zero or one broken rule at any position, every level",
 "Every rule applies at every position and level; tests cover a few rules at one position each.",
 [R+"lib.rs", R+"device.rs", R+"peripheral.rs", R+"cluster.rs", R+"register.rs", R+"field.rs", R+"enumeratedvalue.rs", R+"enumeratedvalues.rs", R+"registerproperties.rs", R+"writeconstraint.rs"],
 [("rules", R+"*.rs validate"), ("level propagation", P+"*.rs config.validate_level"), ("revalidation", R+"*.rs validate_all")],
 "generated devices and rule-breaking edits, differential against a reference validator",
 "Zero widths and names are judged by an independent validator over the harness's model."),
prop("P13", "Ignoring enumerated values equals removing them first",
 "Reading a document with enumerated values ignored gives the same device as reading, without that option, the document from which the enumerated values and write constraints of fields were removed; everything else, including array index names and register write constraints, is kept. Errors inside the ignored parts do not make reading fail.",
 ["inputs"], "every document, with valid and with invalid enumerated values",
 "The option is not tested at all; an over- or under-eager skip shows only for particular content.",
 [P+"lib.rs", P+"field.rs"],
 [("option", P+"lib.rs Config::ignore_enums"), ("skip", P+"field.rs")],
 "metamorphic: option on versus elements stripped from the text",
 "Stripping is done on the harness's own tree."),
prop("P14", "Arrays expand to exactly their items",
 "An array of n items with index list, name template and increment expands to exactly n elements whose names carry the i-th index in place of the placeholder and whose address, offset or bit offset is that of the template plus i increments, all other content being equal; names and descriptions given for an index value replace the indexed ones. The index list grammar (comma lists, numeric and letter ranges, default 0..n-1) denotes those indexes, and a list that does not match the count, or a name without placeholder, is an error.",
 ["inputs"], "every array of peripherals, clusters, registers, fields and every index text",
 "Ranges, list lengths, template forms and overflow boundaries combine; tests read two arrays.",
 [R+"array.rs", R+"dimelement.rs", R+"field.rs", R+"register.rs", R+"cluster.rs", R+"peripheral.rs", P+"array.rs", P+"dimelement.rs"],
 [("item iteration", R+"array.rs names, expand"), ("index grammar", R+"dimelement.rs parse_indexes, indexes_as_range"), ("consistency", P+"array.rs")],
 "generated arrays and index texts against a reference expansion",
 "Items whose address would overflow are covered by P15 and P01."),
prop("P15", "Expansion resolves everything as the reference semantics says",
 "Expanding a device whose references resolve gives a device without arrays, clusters or derivations: every array is replaced by its items, every cluster by its registers with prefixed names and summed offsets, and every derived element by its own content completed by that of the element it refers to, following chains and looking up unqualified, partly qualified and fully qualified references in the documented scope. Everything outside those rules is unchanged, and expanding again changes nothing.",
 ["inputs"], "every device with acyclic derivations of peripherals, clusters, registers, fields and enumerated values across scopes",
 "The result depends on the combination of derivation chains, arrays, nesting and reference forms; there is no test of expansion.",
 [P+"expand.rs", R+"derive_from.rs", R+"array.rs"],
 [("index of referable elements", P+"expand.rs Index"), ("chained derivation", P+"expand.rs derive_*"), ("flattening", P+"expand.rs expand_*")],
 "model-based: reference expansion over the harness's own model",
 "References are generated to resolve; name clashes are avoided except where scopes differ."),
prop("P16", "Unresolvable and cyclic references are errors, and expansion ends",
 "Expanding a device in which some reference names no existing element, or in which elements derive from themselves directly or through others, or a cluster from one that contains it, or some expanded address or offset does not fit its type, returns an error. Expansion always terminates, and elements of equal names in different scopes are not mistaken for self-derivation.",
 ["inputs"], "every device with one reference broken or a cycle of any length at any level",
 "Cycles through several elements and scopes are histories no example covers; a missed one never terminates.",
 [P+"expand.rs"],
 [("cycle detection", P+"expand.rs derive_*_chain"), ("missing targets", P+"expand.rs not found errors"), ("containment", P+"expand.rs active")],
 "generated devices with injected dangling, cyclic and self-containing references; error and termination oracle",
 "Termination is judged by a time limit; derivation graphs of exponential size are left out."),
prop("P17", "Expanding properties gives each register its inherited values",
 "Expanding properties gives every non-derived register, for each of size, access, protection, reset value and reset mask, its own value if it has one and otherwise that of the nearest enclosing cluster, peripheral or device that has one. Nothing else in the device changes, derived elements are left alone, and doing it twice is the same as once.",
 ["inputs"], "every device with properties present or absent at each level, clusters nested at any depth",
 "The presence pattern over levels and items is exponential.",
 [P+"expand.rs", R+"registerproperties.rs", R+"derive_from.rs"],
 [("walk", P+"expand.rs expand_properties"), ("completion", R+"derive_from.rs RegisterProperties")],
 "generated devices against a reference inheritance function",
 "Also driven through the reader's option."),
prop("P18", "Deriving keeps own items and takes over the missing ones",
 "Deriving an element from another of its kind keeps every item the element has itself, takes over every inheritable item it lacks, and never takes over its identity (name, address or offset, derivation target). Neither operand's array or single nature is mixed up: a single element whose name has the array placeholder becomes, when derived from an array, an array of that shape; in all other cases it stays what it was.",
 ["inputs"], "every pair of elements of each kind, single and array, with every pattern of present items",
 "The presence pattern over both operands is exponential in the number of items; no test covers it.",
 [R+"derive_from.rs"],
 [("derivation", R+"derive_from.rs impl DeriveFrom")],
 "generated pairs against an item-by-item reference",
 "The table of inheritable items is written from the documentation and code of the format."),
prop("P19", "Serialized devices deserialize to the same device",
 "Every device, and every element of one, survives serialization to JSON and YAML and deserialization unchanged, with the documented field and keyword names; single elements stay single and arrays stay arrays. Data with an inconsistent bit range is refused.",
 ["inputs"], "every valid device and element, JSON and YAML",
 "Untagged and flattened serialization confuses shapes only for particular presence patterns; no test covers it.",
 [R+"lib.rs", R+"array.rs", R+"bitrange.rs", R+"registercluster.rs", R+"dimelement.rs", R+"device.rs"],
 [("array or single", R+"array.rs serde impls"), ("register or cluster", R+"registercluster.rs"), ("bit range", R+"bitrange.rs serde impls")],
 "generated devices, round trip through serde_json and serde_yaml, key-name oracle",
 "Device header items that are skipped by design are excluded."),
prop("P20", "Builders and modification set exactly what they are told",
 "An element built from any subset of settings in any order has exactly those items, is refused exactly if a mandatory item is missing (which the error names) or a validation rule is broken, and modifying an element with a set of settings changes exactly the items set, keeping the others; setting what an element derives from drops the items it then inherits instead, and setting an optional text (other than the description of an interrupt) or list to blank removes it. A modification after which the element breaks a rule is reported as an error. The error names a rule the element breaks, with its values.",
 ["inputs", "histories"], "every kind of element, every subset and order of settings, every original",
 "Subsets and orders of settings are exponential; tests build a few complete elements.",
 [R+"device.rs", R+"peripheral.rs", R+"cluster.rs", R+"register.rs", R+"field.rs", R+"enumeratedvalue.rs", R+"enumeratedvalues.rs", R+"cpu.rs", R+"addressblock.rs", R+"interrupt.rs", R+"dimelement.rs"],
 [("builders", R+"*.rs *Builder"), ("modification", R+"*.rs modify_from")],
 "stateful generation of setter sequences against a model of the element",
 "Setting a derivation clears dependent items by design; modelled as such."),
prop("P21", "Lookups and iterators agree with a plain search",
 "Finding a child element by name (the first one if several have it), enumerated values by usage, and iterating registers, clusters, fields, or all registers of a peripheral or cluster, in shared and mutable form, gives exactly the elements a plain search of the tree gives, in document order. Changes made through mutable access are seen through shared access and touch nothing else. A CPU is told to be a Cortex-M exactly if its name starts with CM.",
 ["inputs"], "every device and every name, existing or not, at every nesting depth",
 "Iterator bugs show for particular interleavings of registers and clusters and depths.",
 [R+"registercluster.rs", R+"peripheral.rs", R+"cluster.rs", R+"register.rs", R+"device.rs", R+"field.rs"],
 [("iterators", R+"registercluster.rs"), ("lookups", R+"peripheral.rs, cluster.rs, register.rs, device.rs get_*")],
 "generated devices and queries against reference traversals",
 "Duplicate names resolve to the first match."),
prop("P22", "Element paths print, parse, compare and index consistently",
 "A path to a peripheral, cluster, register, field or enumerated value prints as its dot-separated parts, parses back to the same path, equals a text exactly if it prints as that text, and is named by its last part. The index of a device contains exactly the elements of the device under their paths, arrays under every item name and their template name.",
 ["inputs"], "every device, path and text",
 "Off-by-one errors in qualified names show only for particular depths.",
 [P+"expand.rs"],
 [("paths", P+"expand.rs BlockPath, RegisterPath, FieldPath, EnumPath"), ("index", P+"expand.rs Index::create")],
 "generated devices, paths and texts; round trip and reference index",
 "Later elements win where two have the same path."),
prop("P23", "Textual configuration equals typed configuration",
 "Setting an encoder option by its documented name and value text has the same effect on the output as setting it through the typed interface, for every option and value. A value text that is not one of those documented for a format option is refused, and an unknown option name changes nothing.",
 ["inputs", "configurations"], "every option name, every value text, every device",
 "Each of some thirty names maps to one option by hand; a crossed pair is invisible to the tests.",
 [E+"config.rs"],
 [("textual setters", E+"config.rs update"), ("value readers", E+"config.rs FromStr/strum")],
 "exhaustive option names times generated values and devices, differential",
 "Effects are compared on the encoded text of a device that exercises every option."),
prop("P24", "Keywords map one to one in every direction",
 "Each keyword of each enumerated item of the format is read as one distinct value which is written back as the same keyword, in documents, in text conversions and in serialized data. Any other text is rejected. The reading and writing permissions of each access keyword and the default keyword of each item are those the format documents.",
 ["inputs"], "all keywords of all enumerated items (exhaustive) and every near-miss text",
 "Some fifty keywords have two to four hand-written tables each; tests cover part of one.",
 [R+"access.rs", R+"protection.rs", R+"usage.rs", R+"endian.rs", R+"datatype.rs", R+"modifiedwritevalues.rs", R+"readaction.rs", R+"addressblock.rs", P+"usage.rs", E+"usage.rs"],
 [("tables", R+"*.rs as_str, parse_str"), ("readers", P+"*.rs"), ("writers", E+"*.rs")],
 "exhaustive enumeration of keywords plus generated near misses",
 "The keyword list is taken from the CMSIS-SVD schema."),
prop("P25", "Elements read or written alone agree with the whole device",
 "Reading any single element of a document with the reader of its kind gives exactly what the device read from the whole document has at that place, and a reader refuses an element of another kind. Writing any single element, or the items of one, gives exactly the part of the document the whole device is written as, under the same configuration, and writing without a configuration is writing with the default one. The helpers for child elements find them by name, return their texts and numbers, and reject a missing mandatory child.",
 ["inputs", "configurations"], "every element of every generated device, under every configuration of parser and encoder",
 "Tools edit single registers or fields of a document; the readers and writers of the parts are separate functions from those of the whole, used through other entry points, and tests call the whole only.",
 [P+"elementext.rs", P+"array.rs", P+"register.rs", P+"field.rs", P+"cluster.rs", E+"lib.rs", E+"register.rs", E+"field.rs"],
 [("part readers", P+"*.rs Parse"), ("part writers", E+"*.rs Encode, EncodeChildren"), ("child access", P+"elementext.rs ElementExt")],
 "generated devices; differential between whole-document and single-element entry points",
 "An element name in another case is another element."),
]

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    done = set(sys.argv[1:]) or set(l.split()[0] for l in subprocess.check_output(
        [HERE + "/target/release/harness", "list"], text=True).splitlines())
    m = dict(version=1, setup_cmd="./check.sh build", hooks=dict(guard="none", enable="no hooks: the checks use the public interface of the crates", source_commits=[]),
        checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"] + " quick", thorough_cmd="./check.sh " + p["id"] + " thorough",
                     technique=p["technique"], level="exploration", level_note=p["note"],
                     evidence_file="evidence/" + p["id"] + ".json") for p in PROPS if p["id"] in done],
        not_applicable=[dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in done],
        notes="known_findings.txt lists recorded defects and the fix: commits made in /repo; DESIGN.md describes each check.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print("claimed:", sorted(done))
main()
