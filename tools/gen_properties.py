#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the anchors stay reviewable)."""
import json, os
D = "src/decode/"; S = D + "sections/"; T = D + "types/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return value of wadec::decode_module"], hook_needed=None)))

prop("C01", "LEB128 integers decode to exactly the encoded value or are rejected",
 "Wherever a binary module carries a LEB128 integer (u32, u64, s32, s64, s33), decoding yields exactly the mathematical value encoded, with correct sign extension, and consumes exactly the bytes of that encoding. An encoding is accepted if and only if it uses at most ceil(N/7) bytes and the unused bits of a maximal-length encoding are zero (unsigned) or copies of the sign bit (signed). Non-minimal but legal encodings are accepted with the same value.",
 ["inputs"], "every byte string of the maximal encoding length plus one (6 bytes for 32/33-bit, 11 bytes for 64-bit), in every position class where the format uses that integer type",
 "26 unit tests sample a few dozen encodings; 2^48 to 2^88 byte strings exist and the interesting ones (5th/10th byte padding, sign-extension) are rare.",
 [D+"integer.rs", D+"indices.rs"],
 [("decode_u32/u64/i32/i64/s33", D+"integer.rs"), ("index newtypes decode through decode_u32", D+"indices.rs")])

prop("C02", "Type section decodes exactly per the recursive/sub/composite type grammar",
 "A type section is accepted exactly when it matches the WebAssembly 3.0 grammar for recursive groups, (final) subtypes with supertypes, and array/struct/function composite types over packed and value types. When accepted, the decoded module lists the same groups, finality, supertypes, fields with mutability, parameters and results, in order.",
 ["inputs"], "every type-section content within the stated byte bounds (symbolic markers, list lengths, value types, heap types)",
 "Tests decode a handful of fixture modules; marker bytes, implicit-final shorthand and rewound bytes combine into far more shapes than they sample.",
 [S+"type.rs", T+"rectype.rs", T+"comptype.rs", T+"valtype.rs", T+"reftype.rs", T+"heaptype.rs", T+"resulttype.rs"],
 [("marker bytes 0x4E/0x4F/0x50/0x5E/0x5F/0x60", T+"rectype.rs, comptype.rs"), ("rewind through Cursor::chain", T+"rectype.rs")])

prop("C03", "Imports and exports keep names, kinds, types and indices, in order",
 "Every import is decoded as the module name, item name and external type that its bytes encode, and every export as its name, kind and index, in order of appearance. Any descriptor byte outside 0x00-0x04 is rejected, as is any malformed type behind a valid descriptor.",
 ["inputs"], "every import/export entry within the stated bounds (symbolic names up to 3 bytes, descriptor, limits, types and indices)",
 "The fixtures contain one or two imports or exports of some kinds; descriptor, limits flag and type byte spaces are not covered.",
 [S+"import.rs", S+"export.rs", T+"externtype.rs", T+"limits.rs", T+"tabletype.rs", T+"globaltype.rs", T+"tagtype.rs"],
 [("ExternType::decode", T+"externtype.rs"), ("ExternIdx::from", S+"export.rs")])

prop("C04", "Names are accepted iff well-formed UTF-8 and are preserved byte for byte",
 "Import, export and custom section names are accepted exactly when their bytes are well-formed UTF-8 (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequence). An accepted name has exactly the declared length and the same bytes; a declared length that reaches past the enclosing section is rejected.",
 ["inputs"], "every name of up to 5 arbitrary bytes in each of the four name positions, and every declared length",
 "Two fixtures carry invalid UTF-8; the well-formedness rule has nine byte-range classes.",
 [D+"helpers.rs", S+"custom.rs", S+"import.rs", S+"export.rs"],
 [("decode_name / decode_byte_vector", D+"helpers.rs")])

prop("C05", "Function, table, memory, tag, global and start sections decode exactly",
 "Each entry of the function, table, memory, tag, global and start sections is decoded to the type index, reference type, limits (address type, 64-bit minimum, optional maximum), mutability and initialiser that its bytes encode, in order, and anything outside the grammar is rejected. A table without an explicit initialiser is given ref.null of its own heap type; one with an explicit initialiser keeps it.",
 ["inputs"], "every section content of these kinds within the stated byte bounds",
 "Fixtures contain one or two representative entries per section; limits flags, 64-bit bounds, table prefix and mutability bytes are only sampled.",
 [S+"function.rs", S+"table.rs", S+"memory.rs", S+"tag.rs", S+"global.rs", S+"start.rs", T+"limits.rs", T+"globaltype.rs", T+"tabletype.rs", T+"tagtype.rs"],
 [("decode_table 0x40 0x00 prefix", S+"table.rs"), ("parse_limits", T+"limits.rs"), ("Mut markers", T+"globaltype.rs")])

prop("C06", "All eight element segment encodings decode to the right type, mode and items",
 "For each of the eight element segment encodings, the decoded segment has the element type, the mode (passive, declarative, or active with that table index and offset) and the list of initialiser expressions that the bytes encode, function indices becoming ref.func expressions in order. Any other leading flag value, and any element kind other than 0x00, is rejected.",
 ["inputs"], "every element segment within the stated bounds, the leading flag being an arbitrary u32",
 "One fixture lists the eight alternatives with a single concrete value each; flag, table index, kind, type and count combinations are unsampled.",
 [S+"element.rs", T+"reftype.rs", D+"helpers.rs"],
 [("parse_elem", S+"element.rs"), ("parse_elemkind", S+"element.rs")])

prop("C07", "Data segments keep mode, memory, offset and bytes verbatim",
 "Every data segment is decoded to the mode its leading flag encodes (active on memory 0, passive, active on an explicit memory), with that memory index, offset expression and exactly the bytes it carries; any other flag is rejected. The data count is preserved as the exact u32 encoded.",
 ["inputs"], "every data section and data count section within the stated bounds, with symbolic flag, index, length and content bytes, including contents longer than one LEB byte can express",
 "A couple of fixtures with fixed contents; lengths, flags and content bytes are not varied.",
 [S+"data.rs", S+"data_count.rs", D+"helpers.rs"],
 [("parse_data", S+"data.rs"), ("decode_byte_vector", D+"helpers.rs")])

prop("C08", "Code entries: locals expand in order, bodies pair with functions, sizes exact",
 "The i-th code entry is attached to the i-th declared function, with its run-length encoded locals expanded to exactly the declared counts and types in order. An entry is rejected if its declared size is not exactly what its locals and body occupy, or if the total number of locals exceeds 2^32-1, however it is split over declarations.",
 ["inputs"], "every code section within the stated bounds: symbolic entry sizes, up to 3 local groups with arbitrary u32 counts, value types, bodies",
 "Tests have one size mismatch and one locals overflow fixture; sums near 2^32 and off-by-one sizes in later entries are unsampled.",
 [S+"code.rs", D+"module.rs"],
 [("expanded_locals accumulator", S+"code.rs"), ("take(size)/limit()", S+"code.rs"), ("locals expansion", D+"module.rs")])

prop("C09", "Plain instructions: every opcode decodes to its own instruction and immediates",
 "Every parametric, variable, table, numeric, constant, call, branch and bulk-memory opcode (one-byte and 0xFC-prefixed) decodes to the instruction the WebAssembly 3.0 opcode table assigns to it, with each immediate in its proper role and order, integer constants exact and float constants bit-preserved. Every unassigned opcode or 0xFC sub-opcode is rejected.",
 ["inputs"], "all 256 one-byte opcodes and all u32 sub-opcodes after 0xFC in every legal LEB128 length, with arbitrary immediates",
 "Fixture modules exercise each opcode once with distinctive-free immediates (often 0), so swapped operands, wrong opcodes for rare encodings and unassigned opcodes go unseen.",
 [D+"instructions.rs", "src/core/instruction.rs"],
 [("Instruction::parse", D+"instructions.rs")])

prop("C10", "Memory instructions keep memory index, alignment and 64-bit offset",
 "Every load/store, scalar or vector, keeps the alignment exponent, memory index and full 64-bit offset its immediate encodes: alignment field values below 64 mean memory 0, values 64 to 127 mean an explicit memory index with alignment reduced by 64, larger values are rejected. The lane index of lane loads and stores is kept as the byte encoded.",
 ["inputs"], "every memory-access opcode with arbitrary alignment field, memory index and offset encodings",
 "Fixtures use a few small alignments and offsets; flag boundaries (63/64/127/128), wide offsets and overlong encodings are unsampled.",
 [D+"instructions.rs"],
 [("Memarg::decode", D+"instructions.rs"), ("opcodes 0x28-0x3E, 0xFD 0-11, 84-93", D+"instructions.rs")])

prop("C11", "Vector instructions: every 0xFD sub-opcode decodes to its own instruction",
 "Every 0xFD sub-opcode, in any legal LEB128 length, decodes to the vector or relaxed-vector instruction the WebAssembly 3.0 table assigns to it, with its lane indices, shuffle immediates and 128-bit constants preserved verbatim. Every unassigned sub-opcode is rejected.",
 ["inputs"], "all 2^32 sub-opcode values after 0xFD, with arbitrary lane, shuffle and constant bytes",
 "Fixtures contain each vector opcode once; unassigned sub-opcodes, lane values and constants are not explored.",
 [D+"instructions.rs", "src/core/instruction.rs"],
 [("0xFD dispatch", D+"instructions.rs")])

prop("C12", "Reference, aggregate and cast instructions keep types, flags and operands",
 "Every reference, GC aggregate, i31, conversion and cast instruction (0xD0-0xD6, 0xFB-prefixed) decodes to the instruction the 3.0 table assigns to it, keeping each type, field, data, element or label index in its role, each heap type and both nullability flags of casts. Unassigned 0xFB sub-opcodes, invalid cast flags, and heap types that are neither an abstract marker nor a non-negative type index are rejected.",
 ["inputs"], "all 0xFB sub-opcodes (u32) and 0xD0-0xD6 with arbitrary index, heap type and cast flag bytes",
 "Fixtures use each once with index 0 or 1; nullability combinations and heap type bytes are barely sampled.",
 [D+"instructions.rs", T+"heaptype.rs"],
 [("0xFB dispatch", D+"instructions.rs"), ("decode_castop", D+"instructions.rs"), ("HeapType::decode", T+"heaptype.rs")])

prop("C13", "Structured control instructions nest exactly as delimited by else and end",
 "Blocks, loops, ifs (with or without else) and try_tables decode to a tree that mirrors their delimiters: each body holds exactly the instructions between its opener and its matching end/else, with its block type and catch clauses as encoded. A stray else, a second else, an unterminated body or an ill-formed block type or catch clause is rejected, at any depth.",
 ["inputs", "programs"], "every instruction sequence up to the stated length over {block, loop, if, else, end, try_table, plain instructions} with arbitrary block types and catch clauses",
 "Each malformed delimiter has one fixture at depth one; combinations of nesting and delimiters are exponential.",
 [D+"instructions.rs", D+"helpers.rs"],
 [("Instruction::parse recursion and ParseResult", D+"instructions.rs"), ("decode_expr", D+"helpers.rs"), ("BlockType::decode / Catch::decode", D+"instructions.rs")])

prop("C14", "Section contents must occupy exactly the declared section size",
 "A module is accepted only if the contents of every section end exactly at its declared size: contents that need more bytes than declared are rejected without reading past the section, and declared bytes left over are rejected. No section's decoding ever consumes bytes belonging to a following section.",
 ["inputs"], "every section kind with an arbitrary declared size against concrete and symbolic contents followed by further bytes",
 "Two fixtures (one over-, one under-reported) for two section kinds; each of 14 kinds times every size offset is unsampled.",
 [D+"module.rs", S+"code.rs"],
 [("input.take(size) and limit() != 0", D+"module.rs")])

prop("C15", "Sections occur at most once, in the prescribed order; unknown ids are rejected",
 "A module is accepted only if its non-custom sections are distinct and in the order the specification prescribes (tag between memory and global, data count between element and code), wherever custom sections are interspersed; section ids above 13 are rejected. Any other order or a duplicate is rejected.",
 ["inputs", "histories"], "every sequence of up to 5 sections with arbitrary id bytes",
 "Tests have one duplicate and one out-of-order example out of 14^2 pairs and more sequences.",
 [D+"module.rs", "src/core/module.rs"],
 [("SectionKind ordering", "src/core/module.rs"), ("validate_section_kind_expected", D+"module.rs"), ("SectionId_MARKERS", D+"module.rs")])

prop("C16", "Function/code, data count/data and data-index rules hold across sections",
 "A module is accepted only if the numbers of function declarations and code entries agree (a missing section counting as zero), the data count, when present, equals the number of data segments (missing data section counting as zero), and a data count is present whenever any instruction in any function body, at any nesting depth, uses a data index. Modules that satisfy these rules are not rejected on their account.",
 ["inputs", "programs"], "every combination of present/absent sections with symbolic counts, and data-index instructions placed at any position of nested bodies within the bound",
 "Four fixtures; presence/absence/count combinations and positions of the data-index instruction are unsampled.",
 [D+"module.rs", D+"helpers.rs", S+"code.rs"],
 [("CodeFuncEntriesLenMismatch, DataCountMismatch, DataIndexWithoutDataCount", D+"module.rs"), ("instruction_contains_data_index", D+"helpers.rs")])

prop("C17", "Decoding arbitrary bytes never panics, overflows or aborts",
 "For any byte sequence, decoding returns a module or an error: it never panics, overflows an arithmetic operation, indexes out of bounds, aborts, or loops without consuming input. This includes dropping the result.",
 ["inputs"], "every byte string after a valid preamble up to the stated length, and every section body up to the stated length for each section kind",
 "Tests decode fixed files; a panic hides behind specific byte combinations.",
 [D+"module.rs", D+"instructions.rs", D+"integer.rs", D+"helpers.rs", S+"code.rs", S+"element.rs"],
 [("checked conversions and unwraps", D+"module.rs, helpers.rs, heaptype.rs, instructions.rs"), ("shift arithmetic", D+"integer.rs")],
 ["process status", "return value of wadec::decode_module"])

prop("C18", "Memory use is bounded by the size of the input, not by declared lengths",
 "While decoding, the memory in use stays within a fixed multiple of the number of input bytes supplied, whatever element counts, vector lengths, name lengths or section sizes the input declares. A short input that declares huge lengths is rejected with an error rather than exhausting memory.",
 ["inputs"], "every declared u32 length in every list, name, byte vector and section header position, for short inputs",
 "Tests declare at most small lengths; the defect needs a hostile length field.",
 [D+"helpers.rs", D+"module.rs", S+"custom.rs", S+"code.rs"],
 [("decode_list / decode_byte_vector allocation", D+"helpers.rs"), ("locals expansion", D+"module.rs")],
 ["allocator requests"])

prop("C19", "A module cut short is never silently accepted as something else",
 "Any proper prefix of a module is rejected unless it ends exactly at a section boundary (or after the preamble) and the sections that remain are themselves a consistent module, in which case exactly those sections are decoded. An input shorter than the preamble is rejected.",
 ["inputs", "crash_points"], "every cut point of symbolic modules exercising each section kind",
 "A dozen truncation fixtures; each field of each construct is a separate cut point.",
 [D+"module.rs", D+"helpers.rs", D+"integer.rs"],
 [("read_exact and UnexpectedEof", D+"helpers.rs"), ("end of input at section id", D+"module.rs")])

prop("C20", "The result depends on the bytes only, not on how the reader delivers them",
 "Decoding gives the same module or the same error however the reader splits the bytes into reads, and whether or not it reports transient interruptions. The decoder never needs the reader to supply several bytes at once.",
 ["inputs", "schedules"], "every sequence of read sizes and interruptions over symbolic modules within the bound",
 "All tests read from files or cursors that return everything requested.",
 [D+"helpers.rs", D+"module.rs", S+"custom.rs", S+"element.rs"],
 [("read_exact for every multi-byte read", D+"helpers.rs"), ("read_to_end in custom sections", S+"custom.rs")])

prop("C21", "A failing reader makes decoding fail with that reader's own error",
 "If the underlying reader fails with an I/O error before the module is complete, decoding returns an error (never a module) whose root cause is that I/O error: the innermost wrapped error is the reader's own, with its kind, and the displayed chain of causes ends with its message. The reader is not read again after the failure.",
 ["inputs", "fault_sequences"], "every failure offset for modules covering every section kind, type and instruction class",
 "No test uses a failing reader.",
 [D+"helpers.rs", D+"instructions.rs", D+"module.rs", T+"heaptype.rs", T+"reftype.rs"],
 [("#[from] io::Error variants with source()", D+"*"), ("BlockType::decode fallback", D+"instructions.rs")],
 ["std::error::Error::source chain"])

prop("C22", "Rejections identify the first malformation: section, position, offending value",
 "A rejected module yields the error for the first malformed construct in byte order, belonging to the section in which it occurs, with the zero-based position of the offending list element at each level and the offending byte or value as found. Size mismatches report the declared and actually consumed byte counts, count mismatches both counts, and order errors both section kinds.",
 ["inputs"], "every malformed module within the harness bounds of C02-C16",
 "122 error tests each assert one concrete input's variant; positions beyond 0 and other values are unsampled.",
 [D+"module.rs", D+"helpers.rs", S+"code.rs", D+"instructions.rs", T+"comptype.rs"],
 [("DecodeListError::ParseElement position", D+"helpers.rs"), ("section-specific error variants", D+"module.rs")],
 ["DecodeModuleError variant and source chain"])

prop("C23", "Section headers, section kinds and custom sections are recorded faithfully",
 "An accepted module records the version, one header per section in file order with its kind and declared size, the list of non-custom section kinds in order, and every custom section in order with its name and exactly its remaining bytes. The version is the four bytes 01 00 00 00 and any other preamble is rejected.",
 ["inputs"], "every sequence of up to 4 sections with symbolic ids and sizes, custom section contents up to the bound, and all 8-byte preambles",
 "Few fixtures have custom sections and none check headers for arbitrary sequences.",
 [D+"module.rs", S+"custom.rs", "src/core/module.rs"],
 [("section_headers/parsed_section_kinds pushes", D+"module.rs"), ("EXPECTED_PREAMBLE", D+"module.rs")])

prop("C24", "Custom sections never influence the rest of the module",
 "Inserting a well-formed custom section at any section boundary of any module changes nothing in the outcome except the recorded custom sections and headers: an accepted module stays accepted with identical definitions, and a rejected one stays rejected for the same reason.",
 ["inputs", "histories"], "every insertion point in symbolic modules of up to 4 sections, accepted or rejected",
 "Metamorphic relation over pairs of inputs; no test compares a module with and without a custom section.",
 [D+"module.rs", S+"custom.rs"],
 [("custom sections excluded from parsed_section_kinds", D+"module.rs")])

prop("C25", "Every decoding error renders without panicking and names the offending value",
 "For any rejected input, the error and each error in its source chain can be displayed, the chain is finite, and messages about unexpected bytes show the offending byte in hexadecimal. Rendering never panics.",
 ["inputs"], "every error reachable within the bounds, with symbolic offending bytes",
 "Error tests mostly match variants; rendering for arbitrary offending values is not exercised.",
 [D+"mod.rs", D+"module.rs", D+"helpers.rs", D+"instructions.rs"],
 [("thiserror Display implementations and markers_formatted", D+"*")],
 ["Display output of the error chain"])

prop("C26", "The command line tool decodes its input file and reports failure by exit status",
 "The command line program exits with status 0 exactly when its input can be read and decodes to a module. Otherwise it exits with a non-zero status after printing to standard error the error followed, in order, by every cause in its chain. With --verbose a successful run also prints the module's debug representation to standard output, and a failing one the error's to standard error.",
 ["inputs", "fault_sequences"], "every input file within the templates, read errors at every offset of a module with every section, failure to open, with and without --verbose",
 "No tests run the binary.",
 ["wadec-cli/src/main.rs"], [("main", "wadec-cli/src/main.rs"), ("abort", "wadec-cli/src/main.rs")], ["process exit status", "standard error", "standard output"])

prop("C27", "Each decoding depends only on its own bytes, never on other decodings",
 "Decoding the same bytes twice gives the same module or the same error, whatever was decoded before — accepted, rejected or cut off part-way — and whatever else is decoded while it is in progress, for instance by its own reader. No state is carried from one call to the next.",
 ["inputs", "histories"], "every template of the quick bounds after, and with, twenty other decodings that end in different ways",
 "Every test makes one call on a fresh state, and never one call inside another.",
 [D+"mod.rs", D+"module.rs", D+"instructions.rs", D+"helpers.rs"],
 [("decode_module takes only the reader", D+"module.rs"), ("all parser state is local", D+"instructions.rs")])

prop("C28", "Error messages name exactly the bytes that would have been accepted instead",
 "When a rejection names the bytes that were expected in place of the offending one — type forms, mutability, limits, descriptor tags, section ids, catch kinds, cast flags, block starts — no named byte would be rejected in the same way in its place, and every byte that would not be is named. (A composite type or an abstract heap type may also be encoded in longer forms that begin with other bytes; there only the first half is promised.)",
 ["inputs"], "every byte position of the templates at which a one-byte choice is rejected, with every offending byte and every alternative",
 "Error tests match variants and compare a few messages; none relates the listed alternatives to what the decoder accepts.",
 [D+"mod.rs", D+"module.rs", D+"helpers.rs", D+"instructions.rs", S+"import.rs", S+"export.rs"],
 [("markers_formatted lists", D+"*"), ("the match arms that accept", D+"*")],
 ["Display output of the error chain"])

prop("C29", "Two decoded modules compare equal exactly when their content is the same",
 "Decoded modules compare equal exactly when every part of them is equal: types, imports, indices, tables, memories, tags, globals, exports, start, elements, code, data, custom sections, headers and every instruction with all of its operands. Equality is reflexive on decoded modules without floating-point constants, which follow IEEE comparison.",
 ["inputs"], "every pair of modules drawn from one template",
 "The tests compare modules with expected ones and would not notice an equality that ignores a field.",
 ["src/core/module.rs", "src/core/instructions.rs", "src/core/types/"],
 [("derived PartialEq on Module and every part", "src/core")],
 ["PartialEq for Module"])

prop("C30", "Error messages name the section, every list position and the values found",
 "The displayed chain of causes of a rejection, outermost first, names the section in whose contents it occurred, then gives the zero-based position of the offending element of each enclosing list in decimal, in nesting order, each in a message of its own, and then the offending byte, flag, opcode or sub-opcode. A section or code entry size mismatch shows the declared and then the actual byte count, an order error the misplaced section and then the one before it, a duplicate its section kind.",
 ["inputs"], "every template of the quick bounds, every rejected path; counts of more than two arbitrary digits as far as the solver decides them",
 "Error tests match variants; the text of a few messages is compared, not how it relates to the error's fields.",
 [D+"mod.rs", D+"module.rs", D+"helpers.rs", D+"instructions.rs", S+"code.rs", S+"element.rs"],
 [("thiserror Display implementations", D+"*"), ("DecodeListError::ParseElement", D+"helpers.rs"), ("DecodeModuleError", D+"module.rs")],
 ["Display output of the error chain"])

prop("C31", "The work of decoding is proportional to the size of the input",
 "Decoding an input, and dropping the result, takes at most a fixed amount of work per input byte, plus a constant, whatever counts, lengths, nesting or repetition the input contains. (Expanding run-length encoded locals, which by the format takes as long as their declared number, aside.)",
 ["inputs"], "every template of the quick bounds, lists of up to 100001 elements, nests of 2000 blocks, names and data of 50000 bytes, thousands of sections, exports, imports and bodies",
 "Tests decode small modules and measure nothing.",
 [D+"mod.rs", D+"module.rs", D+"helpers.rs", D+"instructions.rs", S+"custom.rs", S+"export.rs"],
 [("decode_list, decode_byte_vector", D+"helpers.rs"), ("Instruction::parse", D+"instructions.rs"), ("section loop of decode_module", D+"module.rs")],
 ["running time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
