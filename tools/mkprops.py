"""Writes properties.jsonl and MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = "The seven existing tests compile four fixed descriptors and encode a dozen items; "

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


prop("C01", "Item encoding is exact, shortest and self-inverse",
     "For every item kind and every value it can hold (signed 32-bit for logical/physical bounds and unit exponent, "
     "unsigned 32-bit otherwise), the encoded bytes are the HID short item with the right tag, the value in little "
     "endian on the fewest of 1, 2 or 4 bytes (zero may also take no byte), and parsing these bytes, or any wider legal "
     "encoding, gives an equal item back. Items are equal exactly when tag and value are. A value that does not fit in "
     "32 bits (or is negative where unsigned is needed) is refused, never truncated.",
     ["inputs"], "all 25 item kinds x all 32-bit values (plain numbers or named constants), and out of range values",
     TESTS + "only sampled values of three item kinds are looked at, boundaries of other kinds and widths are not.",
     ["hrdc/stream/item.py"], [("Item.bytes", "hrdc/stream/item.py"), ("Item.parse", "hrdc/stream/item.py")],
     "property-based testing: reference encoder, all 2^k boundaries plus random values, round-trip",
     "Boundary values are enumerated for each item kind, others sampled.")
prop("C02", "Binary parsing is exact and refuses malformed input",
     "Parsing a binary descriptor delivers exactly its items, in order, with their exact values, whatever data width "
     "each one uses, then ends the stream exactly once. A blob holding an unknown tag, a long item or a truncated item "
     "is refused with an error; it is never accepted as some other sequence of items.",
     ["inputs"], "all byte strings, well-formed or not",
     "No existing test parses a descriptor.",
     ["hrdc/stream/parser/base.py", "hrdc/stream/parser/binary.py", "hrdc/stream/item.py"],
     [("Parser.blobParse / append", "hrdc/stream/parser/base.py"), ("Item.parse", "hrdc/stream/item.py")],
     "property-based testing and byte-level mutation fuzzing against a reference decoder",
     "Sampled; oracle is an independent decoder of HID short items.")
prop("C03", "Conversion between binary, hex and C code is lossless",
     "Converting any descriptor along any chain of the binary, hex and code formats, without optimizing, keeps the exact "
     "item sequence, and the bytes do not depend on formats taken. C code input is read right whatever its layout: "
     "comments of either kind (even when they hold digits, commas or the other kind's markers), letter case, line ends, "
     "missing last comma; hex input likewise with or without 0x, whatever the separators. Code output is a valid C array "
     "initializer, hex output is one line of two-digit bytes per item.",
     ["inputs", "configurations"], "all descriptors x all format chains x all source layouts",
     "No existing test reads text formats, nor converts.",
     ["hrdc/stream/parser/code.py", "hrdc/stream/parser/hex.py", "hrdc/stream/parser/binary.py",
      "hrdc/stream/formatter/code.py", "hrdc/stream/formatter/hex.py", "hrdc/stream/formatter/binary.py"],
     [("Code.read, Hex.read, Binary.read", "hrdc/stream/parser"), ("append of formatters", "hrdc/stream/formatter")],
     "property-based testing: grammar-based source text generation, round-trip through format chains, strict C reader",
     "Sampled over generated item streams and layouts.")
prop("C04", "Code listing tells each item's bytes, meaning and nesting",
     "In a code listing, whether converted or compiled, optimized or not, each line has exactly one item's bytes, and "
     "its comment gives that item's name, its actual value (number, or the name of the usage in its page, usage page, "
     "collection kind, data flags, unit), indented by 4 spaces per enclosing collection. Usages and pages of the "
     "usage tables, and collection kinds, are shown by name, including after Push and Pop.",
     ["inputs"], "all descriptors, all known and unknown usages, units, flags and collection kinds",
     "Listing comments are not compared by any existing test.",
     ["hrdc/stream/formatter/code.py", "hrdc/stream/item.py", "hrdc/stream/parser/base.py", "hrdc/usage/usage.py"],
     [("Code.append", "hrdc/stream/formatter/code.py"), ("Item.__str__", "hrdc/stream/item.py"),
      ("usage naming", "hrdc/stream/parser/base.py")],
     "property-based testing: listing is parsed back by an independent reader; enumeration of all known usages",
     "Sampled for descriptors, exhaustive over the published usages.")
prop("C05", "Optimizer preserves the meaning of any item stream",
     "For any well-formed item stream, the optimized stream declares the same report fields (way, report ID, bit offset, "
     "size, flags, logical and physical ranges, unit, exponent, usages, strings, designators, enclosing collection) and "
     "the same collections, in the same order, and ends exactly once. This includes streams with Push/Pop, usage ranges, 32-bit and "
     "mixed-page usages, delimiters, repeated or partial globals, and zero counts.",
     ["programs", "inputs"], "all well-formed item streams",
     TESTS + "no item stream is given to the optimizer but these four compiled ones.",
     ["hrdc/stream/optimizer"],
     [("eight optimization passes", "hrdc/stream/optimizer/*.py")],
     "property-based testing: translation check of each optimized stream against an independent HID interpreter",
     "Sampled streams; meaning is computed under both known rules for resolving the usage page.")
prop("C06", "Any selection and repetition of optimizer passes preserves meaning",
     "Whatever window of passes is selected (minimum and maximum precedence), and whether applied once or several times "
     "in a row, on raw streams or on compiled descriptors, the outcome declares the same fields and collections as the "
     "input.",
     ["programs", "configurations"], "all well-formed streams x all windows of passes, chained",
     "Existing tests only run the complete pipeline once.",
     ["hrdc/stream/optimizer/base.py", "hrdc/stream/optimizer"],
     [("Optimizer.new", "hrdc/stream/optimizer/base.py"), ("each pass", "hrdc/stream/optimizer/*.py")],
     "property-based testing: each pass and window against an independent HID interpreter",
     "Sampled streams, all single passes.")
prop("C07", "Optimized output is canonical: nothing redundant, alike values merged",
     "An optimized stream never sets a global to the value it already has (taking Push/Pop and the initial zero unit, "
     "exponent and physical range in account), and repeating globals already in force in the input gives the same items up to "
     "the last main item. Nor has it physical items where every physical range equals the logical one, or the designator "
     "of a data item with no other one than 0. "
     "Consecutive single variable values of a description that share way, flags, ranges, unit, size and usage page (and "
     "all have, or all lack, string and designator) compile to one data item, where three or more consecutive usages, "
     "strings or designators make a Minimum/Maximum range and others are listed one by one. Optimizing a compiled "
     "descriptor again neither adds nor removes items.",
     ["programs", "inputs"], "all streams, all groupings of values",
     TESTS + "canonical form is only compared on these.",
     ["hrdc/stream/optimizer"],
     [("GlobalMerge", "hrdc/stream/optimizer/global_merge.py"), ("MainMerge", "hrdc/stream/optimizer/main_merge.py"),
      ("RangeMerge", "hrdc/stream/optimizer/range_merge.py"), ("UsagePage", "hrdc/stream/optimizer/usage_page.py"),
      ("PhysicalMerge", "hrdc/stream/optimizer/physical_merge.py")],
     "property-based testing: invariant over output, metamorphic (noise insertion, repetition), predicted merges",
     "Sampled.")
prop("C08", "Compiling without optimizer declares exactly what is described",
     "The compiled (-N) descriptor of any description declares, in order, exactly its collections (kind, usage, nesting) "
     "and, for each value, `count` fields with the described way, report ID, size, flags, logical range, physical range "
     "(logical range when left out or zero), unit, exponent, usage, string and designator, plus only the padding asked "
     "for or needed for alignment. Values after a nested report belong to the enclosing report again, and all "
     "collections are closed.",
     ["programs"], "all description trees",
     TESTS + "reports, strings, designators, units, physical ranges, padding, nested reports are not tested.",
     ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py"],
     [("Streamer.enter/leave/element", "hrdc/descriptor/streamer.py"), ("Value.__init__", "hrdc/descriptor/descriptor.py")],
     "property-based testing: model of description semantics against an independent HID interpreter",
     "Sampled trees.")
prop("C09", "Optimizing compiler keeps the described meaning and never grows output",
     "The optimized descriptor of any description declares exactly the same fields, padding and collections as the "
     "description (and as the -N output). It is never longer than the -N output (provided each usage has its page or its "
     "ID below 0x100).",
     ["programs"], "all description trees",
     TESTS + "all with few properties.",
     ["hrdc/descriptor/streamer.py", "hrdc/stream/optimizer"],
     [("Streamer", "hrdc/descriptor/streamer.py"), ("Optimizer.new", "hrdc/stream/optimizer/base.py")],
     "property-based testing: differential (-N vs optimized) and description model",
     "Sampled trees.")
prop("C10", "Fields lie where size, count and alignment say, padding is minimal",
     "In each report of each way, a value starts at the first bit, at or after the end of the previous one, that is a "
     "multiple of its alignment (the smaller of 8 and its size by default, none for 0 or 1), and takes size x count bits; "
     "Padding takes exactly its size, Align reaches its boundary with the fewest bits. Gaps are constant fields, and the "
     "report is exactly as long as these make it, tracked separately for each way and report ID.",
     ["programs"], "all sequences of values, paddings and alignments over reports and ways",
     TESTS + "alignment is only exercised between 3 bits and a byte.",
     ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py"],
     [("report_size tracking", "hrdc/descriptor/streamer.py"), ("Value.alignment", "hrdc/descriptor/descriptor.py")],
     "property-based testing: bit-position model against compiled bytes",
     "Sampled sequences.")
prop("C11", "Named arrays map each index to its usage",
     "A named array value (list or usage range, known or vendor usages, any pages) compiles to `count` array fields whose "
     "logical range starts at logicalMin and has one index per usage, with the usages in order, and keeps its other "
     "flags, string and designator; when it has a usage, fields lie in a logical collection of that usage, otherwise in "
     "the enclosing collection. This holds with and without optimizer, and neighbour values are unaffected.",
     ["programs"], "all named arrays among other values",
     TESTS + "one of them has one named array, without usage.",
     ["hrdc/descriptor/streamer.py", "hrdc/descriptor/descriptor.py", "hrdc/usage/usage.py"],
     [("namedArray handling", "hrdc/descriptor/streamer.py"), ("UsageRange", "hrdc/usage/usage.py")],
     "property-based testing: independent HID interpreter on compiled arrays",
     "Sampled.")
prop("C12", "Decompiling recovers every field and collection",
     "For any descriptor the description language can express, the decompiled tree declares the same fields and "
     "collections as the descriptor: order, nesting, report IDs, bit positions, sizes, flags, ranges, units, usages, "
     "strings and designators. It gives the same for the optimized form of the descriptor, for named arrays with or "
     "without a collection, and for whatever the compiler outputs; nothing gets printed meanwhile.",
     ["programs", "inputs"], "all descriptors within the description language (arrays have a usage per index or one at "
     "most; no delimiter, no string or designator on collections)",
     "No existing test decompiles.",
     ["hrdc/descriptor/extractor.py"],
     [("Extractor.append/handleDataItem/leave/reportInsert", "hrdc/descriptor/extractor.py")],
     "property-based testing: decompiled tree model against an independent HID interpreter",
     "Sampled; domain stated in DESIGN.md; physical range and unit of selector arrays are not compared.")
prop("C13", "Decompiled script is Python that rebuilds the same description",
     "The script written for any decompiled descriptor, and for any description, is valid Python which, when run, builds "
     "a description with the same structure and the same value for every attribute (usage, size, flags, bounds, named "
     "array, unit, exponent, designator, string, count, alignment, padding and boundary).",
     ["programs"], "all decompiled descriptors and all descriptions",
     "No existing test dumps a script.",
     ["hrdc/descriptor/dumper.py"],
     [("Dumper.enter/leave/element", "hrdc/descriptor/dumper.py"), ("Usage / flag / unit names", "hrdc/usage, hrdc/stream/item.py")],
     "property-based testing: round-trip (dump, exec, compare attributes)",
     "Sampled.")
prop("C14", "Decompile then compile gives an equivalent descriptor",
     "Decompiling a descriptor to a script, running it and compiling the outcome, with or without optimizer, once or "
     "twice, gives a descriptor declaring the same fields at the same bit positions, the same report sizes and the same "
     "collections as the original.",
     ["programs", "inputs"], "all descriptors within the description language, including all compiled ones",
     "No existing test decompiles.",
     ["hrdc/descriptor/extractor.py", "hrdc/descriptor/dumper.py", "hrdc/descriptor/streamer.py"],
     [("Extractor", "hrdc/descriptor/extractor.py"), ("Dumper", "hrdc/descriptor/dumper.py"),
      ("Streamer", "hrdc/descriptor/streamer.py")],
     "property-based testing: end-to-end round-trip judged by an independent HID interpreter",
     "Sampled; same domain as C12.")
prop("C15", "Usage constants have their published codes and names that evaluate back",
     "Every usage constant has the page, ID and usage types of the HID usage tables; its text is `<page>.<Name>` as one "
     "writes it in a description, and evaluates to the same usage, also for Button(n) and Ordinal(n). Looking any 32-bit "
     "usage up gives the constant bound to it, or else its hexadecimal number, with the exact page and ID when split; no "
     "two constants share a code. A usage a user declares is known to look-ups by its name from then on.",
     ["inputs"], "all published constants, all 32-bit usages",
     "Existing tests use about 25 constants of 1306.",
     ["hrdc/usage"],
     [("Usage.lookup/split/page/inpage", "hrdc/usage/usage.py"), ("tables", "hrdc/usage/*.py")],
     "property-based testing: exhaustive over constants against a reference table, random 32-bit usages",
     "Exhaustive on constants; reference table is a committed, reviewed snapshot.")
prop("C16", "A usage range behaves as the list of its usages",
     "A usage range has the length, iteration (repeatable), truth value, non-negative and negative indexing, and index "
     "errors of the list of usages from its minimum to its maximum, each as a usage constant; its text evaluates to the "
     "same range. Building a range from an array works exactly for two or more contiguous increasing usages and is "
     "refused with ValueError otherwise.",
     ["inputs"], "all ranges, indices and arrays",
     "Existing tests only iterate one range.",
     ["hrdc/usage/usage.py"],
     [("UsageRange", "hrdc/usage/usage.py")],
     "property-based testing: model-based (Python list)",
     "Sampled.")
prop("C17", "Units compose by dimension exponents and survive all stages",
     "A unit made of a system and dimension exponents from -8 to 7 has each exponent in its own 4-bit field as HID "
     "specifies, out of range exponents are refused, and named units have their documented composition. Any unit goes "
     "unchanged through compiling, listing, decompiling and running the script again.",
     ["inputs"], "all unit systems x exponents, all named units",
     "No existing test uses units.",
     ["hrdc/stream/item.py", "hrdc/descriptor/dumper.py"],
     [("Unit", "hrdc/stream/item.py")],
     "property-based testing: arithmetic model, round-trip through compiler and decompiler",
     "Sampled compositions, every single exponent and named unit enumerated.")
prop("C18", "Symbolic constants act as the numbers they name",
     "Named constants combined with each other or with plain numbers by | & + * << >> ~, compared (== != <) and hashed "
     "act as their numeric values. Every combination of data flags, each way and each collection kind compiles to the "
     "bits HID assigns to it.",
     ["inputs"], "all operators x values, all combinations of public flags",
     "Existing tests combine two flags.",
     ["hrdc/util/named_constant.py", "hrdc/stream/item.py"],
     [("NamedConstant operators", "hrdc/util/named_constant.py"), ("flag values", "hrdc/stream/item.py")],
     "property-based testing: differential against Python integers; HID bit table",
     "Sampled.")
prop("C19", "Outcomes do not depend on earlier or interleaved operations",
     "Within one process, the outcome of compiling, optimizing, converting, decompiling, dumping, looking a usage up, or "
     "checking a descriptor is the same as if done alone in a fresh process, whatever operations came before (including "
     "failed ones; declaring usage constants aside), and two optimizations fed in alternation give what each gives alone. None of these operations alters "
     "the description it works on.",
     ["histories", "schedules"], "all histories of operations over shared descriptions and streams",
     "Existing tests do not repeat an operation on an object.",
     ["hrdc/stream/optimizer", "hrdc/descriptor", "hrdc/usage/usage.py", "hrdc/stream/item.py"],
     [("per-instance state of passes, streamer, extractor", "hrdc/stream/optimizer, hrdc/descriptor"),
      ("unregistered lookups", "hrdc/usage/usage.py")],
     "stateful property-based testing: generated histories against fresh-process outcomes",
     "Sampled histories of 3 to 8 operations.")
prop("C20", "Command line tools give the library's outcome, on files and pipes",
     "The converter, the decompiler, and any description script run as a program read from a file or standard input and "
     "write to a file or standard output, in each format, with or without optimizing, giving the same descriptor as the "
     "library (converter output declares the input's items, or its meaning when optimizing; a decompiled script compiles "
     "to an equivalent descriptor), and end with status 0 and nothing else written; an output file that exists is "
     "replaced. Malformed input or an unknown format "
     "ends them with a non-zero status.",
     ["configurations", "inputs"], "all descriptors x formats x options x files or pipes",
     "No existing test runs a command line tool.",
     ["hrdc/converter.py", "hrdc/descriptor/compiler.py", "hrdc/descriptor/extractor.py"],
     [("_main", "hrdc/converter.py"), ("compile_main", "hrdc/descriptor/compiler.py"), ("main", "hrdc/descriptor/extractor.py")],
     "property-based testing: real processes, differential with library and HID interpreter",
     "Sampled.")
prop("C21", "Expected-descriptor assertion accepts exactly the right bytes",
     "The test helper passes when, and only when, the expected C code holds exactly the bytes of the optimized "
     "descriptor: any altered, missing, swapped or extra byte or item makes it fail. Layout and comments of the expected "
     "code do not matter.",
     ["inputs"], "all descriptions x alterations x layouts",
     "Existing tests only use it on matching descriptors.",
     ["hrdc/descriptor/test.py", "hrdc/stream/comparer.py"],
     [("descriptor_expected", "hrdc/descriptor/test.py"), ("ExpectedStream", "hrdc/stream/comparer.py")],
     "property-based testing: mutation of the expected text against byte equality",
     "Sampled.")
prop("C22", "Reports do not interfere with each other",
     "For any description, each report (report ID and way) has the same fields, padding, bit positions and enclosing "
     "collections as in the description where all values of other reports are left out, and where successive parts of "
     "a report are joined, with or without optimizer.",
     ["programs"], "all descriptions with several reports",
     "Existing tests have one input report, besides one with three output bits.",
     ["hrdc/descriptor/streamer.py", "hrdc/stream/optimizer"],
     [("report_size, report_stack", "hrdc/descriptor/streamer.py"), ("MainMerge, GlobalMerge", "hrdc/stream/optimizer")],
     "property-based testing: metamorphic (projection on one report)",
     "Sampled.")
prop("C23", "What cannot be expressed is refused, not altered",
     "Building or compiling a description fails with an error, instead of giving a descriptor, when a non-constant value "
     "lacks logical bounds and named array, or when a report ID (0 to 255), bound, size, count, usage, unit, exponent, "
     "string, designator or collection kind does not fit its item. Decompiling fails on unbalanced collections or a Pop "
     "without Push, C code input fails on anything that is not a list of bytes, and unknown format names are refused.",
     ["inputs", "fault_sequences"], "all descriptions with one misfit, all unbalanced streams, all broken texts",
     "No existing test gives invalid input.",
     ["hrdc/descriptor/descriptor.py", "hrdc/descriptor/streamer.py", "hrdc/stream/item.py", "hrdc/descriptor/extractor.py",
      "hrdc/stream/parser/code.py"],
     [("Value.__init__", "hrdc/descriptor/descriptor.py"), ("Item range check", "hrdc/stream/item.py")],
     "property-based testing: single-fault injection in generated valid inputs",
     "Sampled.")
prop("C24", "Descriptions are plain containers that can be grown, shared and merged",
     "Top levels, reports and collections act as lists of members (append, pop, length, indexing, iteration), and what "
     "they compile to is given by the members held at that time, even when the same value or collection object appears "
     "at several places. Descriptions merged under separate report IDs declare what each declares alone, under its ID.",
     ["histories", "programs"], "all histories of container operations, all merges of descriptions",
     "Existing tests only build descriptions at once.",
     ["hrdc/descriptor/descriptor.py", "hrdc/descriptor/streamer.py"],
     [("Hierarchical", "hrdc/descriptor/descriptor.py"), ("Streamer", "hrdc/descriptor/streamer.py")],
     "stateful model-based testing (Python list), metamorphic merging",
     "Sampled histories.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

cmd = "python3-vt -B pbt/run.py %s --tier %s"
man = {"version": 1,
       "setup_cmd": "python3-vt -B -c \"import hypothesis\"",
       "checks": [{"property": p["id"], "quick_cmd": cmd % (p["id"], "quick"), "thorough_cmd": cmd % (p["id"], "thorough"),
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
       "not_applicable": [],
       "notes": "hrdc is imported from /repo's working tree (nothing to build). Replay a violation with "
                "`python3-vt -B pbt/run.py ID --replay FILE`. Known and fixed findings: known_findings.jsonl."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
