"""Writes properties.jsonl (run once by hand; kept so that the list stays easy to edit)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
VM, VI, VV = "src/vm/vm_exec.c", "src/vm/vm_internal.h", "src/vm/vm_verify.c"
PA, LX, UT, CC, FM = "src/compiler/cnd_parser.c", "src/compiler/cnd_lexer.c", "src/compiler/cnd_utils.c", "src/compiler/cndc.c", "src/compiler/cnd_fmt.c"
H = "include/concordia.h"
SAMPLE = "The tests run a few hand-written schemas with one or two chosen values each; they cannot quantify over %s."

p("P01", "The VM is memory-safe for any bytecode, data buffer and host callback",
  "Executing any byte string as a program over any data buffer, in either mode and whatever the host callback answers, never reads or writes outside the bytecode, the data buffer and the context, and never crashes or runs into undefined arithmetic. If it ends (a program may jump backwards forever), it finishes or returns one of the documented error codes. The buffer position stays within the data buffer (one past the end at most).",
  ["inputs", "programs", "histories"], "all bytecode, all data contents and lengths, both modes, all callback answers", SAMPLE % "bytecode; vm_fuzzer samples random programs only",
  [VM, VI], [("bounds checks before every access", VM + ":cnd_execute"), ("fetch macros", VM + ":FETCH_IL_*"), ("bit I/O bounds", VI + ":read_bits/write_bits")], ["return code", "memory accesses"],
  [("cursor/bit_offset", "position in the data buffer", H + ":cnd_vm_ctx"), ("loop_stack/expr_stack", "bounded stacks", H + ":cnd_vm_ctx")])
p("P02", "Truncated data and short buffers are always reported, never accepted",
  "Decoding data that ends before a required field is complete returns an out-of-bounds error and never success; encoding into a buffer too small for the message likewise fails instead of dropping or truncating fields. This holds for every cut point of every message and every field kind, including bitfields, padding, strings, arrays, constants, checksums and computed fields.",
  ["inputs", "crash_points"], "all message contents and all cut points / buffer sizes, for a corpus covering every field kind", SAMPLE % "every cut point of every message",
  [VM, VI], [("cursor + size > data_len checks", VM + ":cnd_execute"), ("bit read/write limits", VI + ":read_bits/write_bits")], ["return code of cnd_execute", "cursor"])
p("P03", "Integer and bool fields have exactly the declared width, sign and byte order",
  "For every integer type and bool, a value supplied by the host is encoded as exactly its declared number of bytes in the byte order in force (packet-level or per-field override), and decoding those bytes reports the same value with the declared signedness. Bool accepts only 0 and 1 in both directions. A per-field byte-order override affects only that field.",
  ["inputs", "configurations"], "all values of all integer widths, all byte-order configurations", SAMPLE % "all 2^64 values and order combinations",
  [VM, VI, PA], [("HANDLE_PRIMITIVE", VM), ("read_u16/32/64, write_u16/32/64", VI), ("OP_SET_ENDIAN emission", PA + ":parse_field/parse_top_level")], ["wire bytes", "callback values"])
p("P04", "float and double fields carry every bit pattern unchanged",
  "Encoding then decoding a float or double field (any type alias) in either byte order preserves the IEEE-754 bit pattern exactly, including NaN payloads, infinities, signed zeros and denormals. The wire bytes are the declared-width IEEE encoding in the declared byte order.",
  ["inputs"], "all 2^32 / 2^64 bit patterns, both byte orders", SAMPLE % "all bit patterns",
  [VM, VI, PA], [("HANDLE_FLOAT", VM), ("type selection", PA + ":parse_field")], ["wire bytes", "callback values"])
p("P05", "Bitfields are packed exactly as documented for every width and position",
  "Consecutive bitfields occupy consecutive bits with no gaps: least-significant bit first in little-endian, most-significant bit first in big-endian. Every width 1..64 at every bit position round-trips, signed fields are sign-extended on decode, values wider than the field are truncated to it, and neighbouring bits are never disturbed.",
  ["inputs", "configurations"], "all values, widths, starting bit positions, byte orders and neighbouring bits", SAMPLE % "all width/position/value combinations",
  [VI, VM, PA], [("read_bits/write_bits", VI), ("sign_extend, OP_IO_BIT_*", VM), ("bit width parsing", PA + ":parse_field")], ["wire bytes", "callback values"])
p("P06", "Padding, fill and alignment place every following field exactly",
  "@pad(n) skips exactly n bits (written as zero), @fill completes the current byte with the given bit and does nothing when already aligned, and a byte-sized field after a partial byte starts at the next byte boundary. Unaligned structs pack their fields most-significant bit first without gaps. Encoder and decoder always agree on the position of every field.",
  ["inputs", "configurations"], "all values and all pad/fill/bitfield layouts in a corpus covering every bit offset", SAMPLE % "all offsets and values",
  [VM, VI, PA], [("ALIGN_TABLE, OP_ALIGN_PAD, OP_ALIGN_FILL, OP_ENTER/EXIT_BIT_MODE", VM), ("unaligned struct handling", PA + ":parse_struct")], ["wire bytes", "cursor"])
p("P07", "Strings are framed, truncated and bounds-checked exactly",
  "A terminated string is written as its bytes (at most the declared maximum) plus one zero byte, a prefixed string as its length in the prefix type and byte order followed by its bytes; both are read back as exactly those bytes and the next field follows immediately. A string that does not fit the buffer, is not terminated inside it, or whose prefix points past its end is rejected.",
  ["inputs"], "all string contents and lengths up to the bound, all prefix values, all buffer ends", SAMPLE % "all lengths, contents and prefix values",
  [VM, PA], [("OP_STR_NULL", VM), ("HANDLE_STRING_PRE", VM), ("prefix/until/max parsing", PA + ":parse_field")], ["wire bytes", "callback pointers", "cursor"])
p("P08", "Arrays iterate exactly the declared, prefixed, referenced or available count",
  "A fixed array processes exactly its declared number of elements, a prefixed array as many as its prefix says (written in the prefix type and byte order), a counted array as many as the referenced field holds, and an eof array as many as remain; zero elements skip the body and nothing else. Nested arrays and arrays of structs keep this for every inner and outer count, and nesting deeper than the limit is refused.",
  ["inputs", "configurations"], "all counts up to the bound, all element values, nested shapes", SAMPLE % "all count combinations",
  [VM, PA], [("loop_push/loop_pop/skip_loop_body", VM), ("OP_ARR_*", VM), ("array opcode emission", PA + ":parse_field")], ["callback sequence", "wire bytes"],
  [("loop_stack", "active loops", H + ":cnd_vm_ctx")])
p("P09", "Structs, imports and nesting keep layout and give every field its own name",
  "Using a struct as a field lays its fields out inline exactly as if written there, and every field of a nested struct is identified by its dotted path, so two uses of one struct never share a name. This holds for every field kind and decorator inside the struct and for definitions that come from imported files; a packet defined as a struct behaves like that struct.",
  ["inputs", "configurations"], "all values, corpus of nested schemas with every field kind inside the nested struct", "Tests nest only plain integer fields; layout plus naming over all values and field kinds is not sampled.",
  [UT, PA, CC], [("buf_append_with_prefix", UT), ("struct registry", UT + ":reg_find"), ("parse_import", PA)], ["key names", "callback sequence", "wire bytes"])
p("P10", "Constants are always written exactly and every other value is rejected",
  "Encoding a constant or match field writes the declared value in the declared type and byte order without asking the host; decoding accepts exactly that value and reports it, and any other value fails validation. This holds for every constant representable in the type, for every integer type.",
  ["inputs"], "all constants (symbolic literal digits) and all wire values", SAMPLE % "all constants and wire values",
  [VM, PA], [("OP_CONST_CHECK", VM), ("const emission and width check", PA + ":parse_field")], ["return code", "wire bytes"])
p("P11", "Range validation accepts exactly the values inside the declared bounds",
  "A field with @range(min, max) is accepted if and only if its wire value lies in [min, max], in both modes, for every integer and floating type, with signed comparison for signed types; NaN is never in range. The bounds used are the ones written in the schema and an empty range is a compile error.",
  ["inputs"], "all bounds (symbolic literal digits) and all field values", SAMPLE % "all bounds and values",
  [VM, PA], [("CHECK_RANGE, CHECK_RANGE_FLOAT", VM), ("emit_range_check", PA)], ["return code"])
p("P12", "Enum validation accepts exactly the listed values",
  "A field of enum type is accepted if and only if its value equals one of the enumerators (explicit or auto-incremented), for every underlying type and byte order, in both modes. An accepted value is encoded in the underlying type, and processing continues correctly after the check whichever enumerator matched.",
  ["inputs"], "all field values, corpus of enums over every underlying type", SAMPLE % "all field values",
  [VM, PA], [("OP_ENUM_CHECK", VM), ("parse_enum", PA)], ["return code", "wire bytes"])
p("P13", "CRC fields equal the declared CRC of all preceding bytes; mismatches are caught",
  "A CRC field is written as, and decoding requires, the CRC with the declared width, polynomial, initial value, reflection flags and final xor, computed over all bytes from the start of the message to the field. Any message whose stored checksum differs from that value is rejected with a checksum error.",
  ["inputs", "configurations"], "all data bytes up to the bound, all parameters", SAMPLE % "all messages and parameter combinations",
  [VM, PA], [("calc_crc, crc32_table", VM), ("OP_CRC_16/32", VM), ("@crc* decorators", PA + ":parse_field")], ["return code", "wire bytes"])
p("P14", "Integer transforms (@add, @sub, @mul, @div) are applied and inverted exactly",
  "On decode the host receives the raw value transformed as declared, on encode the inverse is applied before writing; whenever the transform is invertible for a value the round trip is exact. No value or operand can crash the process, and a transform never leaks onto another field.",
  ["inputs"], "all raw and host values, all operands", SAMPLE % "all values and operands (overflow and division corner cases)",
  [VM, PA], [("vm_math_int_to_eng/raw", VM), ("OP_TRANS_*", VM)], ["callback values", "wire bytes"])
p("P15", "Linear, polynomial and spline scaling follow the declared curve",
  "On decode the host receives exactly factor*raw+offset, the polynomial, or the piecewise-linear interpolation at the raw value; on encode the raw value written is the inverse within the representable range. No host value, including NaN, infinities and out-of-range values, can crash the encoder or invoke undefined behaviour.",
  ["inputs"], "all raw values and all host doubles, corpus of curves", SAMPLE % "all values",
  [VM, PA], [("vm_math_poly_*/spline_*", VM), ("HANDLE_PRIMITIVE scaling branch", VM), ("@scale/@offset/@poly/@spline", PA)], ["callback values", "wire bytes"])
p("P16", "@expr fields evaluate with documented operators, precedence and types",
  "An @expr field is written as the value of its expression over the already processed fields, with the documented precedence, grouping, unary operators, comparison, logic, bit operations and int/float conversions; decoding requires the wire value to equal it. Division by zero and stack overflow are reported as errors.",
  ["inputs", "programs"], "all operand values, corpus of expressions covering every operator pair", SAMPLE % "all operand values and operator combinations",
  [PA, VM], [("precedence climbing", PA + ":parse_precedence"), ("ALU opcodes, OP_EMIT", VM), ("rules table", PA)], ["wire bytes", "return code"])
p("P17", "if/else selects exactly one branch by the condition's value",
  "For every value of the fields a condition mentions, exactly the branch the condition selects is processed (else-if chains included) in both modes, and the fields after the statement are processed once. Nesting inside other branches, switches, structs and arrays does not change this.",
  ["inputs", "programs"], "all condition operand values, corpus of if/else shapes", SAMPLE % "all operand values",
  [PA, VM], [("parse_if", PA), ("OP_JUMP_IF_NOT, OP_JUMP", VM)], ["callback sequence", "wire bytes"])
p("P18", "switch selects exactly the case equal to the discriminator, else default",
  "For every discriminator value exactly the fields of the matching case are processed, the default's if none matches, and nothing if there is no default; then processing continues after the switch. Sparse and dense (jump table) forms, enum-named cases, negative values and nested switches behave identically.",
  ["inputs", "programs"], "all 2^64 discriminator values, corpus of case sets on both sides of the dense/sparse boundary", SAMPLE % "all discriminator values",
  [PA, VM], [("parse_switch", PA), ("OP_SWITCH, OP_SWITCH_TABLE", VM)], ["callback sequence", "return code"])
p("P19", "Optional trailing fields may be absent; nothing else may",
  "If the data ends before an @optional field, decoding succeeds and the field is reported with its zero value; if it is present it is decoded normally. The allowance applies only to the field it is written on, and an absent optional field does not change how other fields are processed.",
  ["inputs", "crash_points"], "all contents and all data lengths, optional on every field kind", SAMPLE % "all lengths and field kinds",
  [VM, PA], [("is_next_optional", VM), ("OP_MARK_OPTIONAL emission", PA)], ["return code", "callback sequence"])
p("P20", "The host callback is authoritative: an error stops the run immediately",
  "If the host callback reports an error at any call, execution stops at once with the callback error, no further callback is made, and no field after it is written; a failed run is never reported as success (declining a whole byte block only means its elements are asked for one by one). Otherwise the callback is called exactly once per field occurrence, in schema order, with the field's key and a type matching the field.",
  ["inputs", "fault_sequences"], "a callback failure at every call index, all data", "Tests use a callback that never fails (or fails at one place).",
  [VM], [("io_callback result checks", VM + ":cnd_execute")], ["return code", "callback sequence", "wire bytes"])
p("P21", "Decode then encode reproduces the message for the shipped example schemas",
  "For every schema shipped in the repository, any message that decodes successfully is reproduced by encoding the decoded values with the same schema: same length and same bytes, up to bits the schema declares as padding. Encoding host values and decoding the result yields the same values.",
  ["inputs", "histories"], "all messages up to the length bound for the shipped schemas", SAMPLE % "all messages; the CLI example tests use one JSON file per schema",
  [VM, VI, PA, CC], [("symmetric encode/decode bytecode", VM)], ["wire bytes", "callback values"])
p("P22", "A program accepted by the verifier never fails structurally at run time",
  "If program verification succeeds, executing the program on any data never reads an instruction operand, constant list or jump table outside the bytecode, never interprets operand bytes as an instruction, and never reports an invalid opcode. Programs containing an undefined opcode, a truncated instruction or a jump outside the program are rejected.",
  ["programs", "inputs"], "all bytecode up to the bound, all data and callback answers", "Verifier tests list about ten hand-made programs.",
  [VV, VM], [("cnd_verify_program", VV)], ["return code"])
p("P23", "Every successfully compiled schema yields a well-formed, verifiable image",
  "When compilation reports success the output file loads, has consistent header offsets and string count, contains only key ids that name strings of the table, and passes program verification. Names used by the schema are all present and distinct.",
  ["inputs", "programs"], "schema corpus covering all constructs, plus symbolic holes in it", "Tests compile a few dozen schemas and never run the verifier on compiler output.",
  [CC, VV, UT], [("optimize_strings and image writer", CC), ("verifier", VV)], ["output file", "cnd_verify_program result"])
p("P24", "Loading any image is safe and key lookups are exact inverses",
  "Loading any byte string as an image either fails with an error or yields a program whose name and id lookups never read outside the image; malformed headers, offsets or string tables are rejected. On a loaded program, looking up the name of a key id and the id of that name are inverse for distinct names, and unknown ids or names report absence.",
  ["inputs"], "all images up to the size bound, all key ids, all names", "Tests load compiler-produced images only.",
  [VM], [("cnd_program_load_il", VM), ("cnd_get_key_name/cnd_get_key_id", VM)], ["return code", "memory accesses"])
p("P25", "Any source text compiles to an image or to diagnostics, never to a crash",
  "Compiling any source text terminates without memory errors, undefined behaviour or hangs, and either reports success and writes an image or reports failure, prints at least one diagnostic and writes no image.",
  ["inputs", "programs"], "schema templates with windows of arbitrary bytes at many positions, and short arbitrary sources", "Tests feed well-formed schemas and a few typical errors.",
  [PA, LX, UT, CC], [("parser error recovery", PA + ":parser_error/consume"), ("lexer bounds", LX)], ["exit status", "memory accesses"])
p("P26", "Numeric literals in schemas mean exactly what they say",
  "Decimal, hexadecimal, negative and fractional literals in every position (constants, ranges, counts, widths, enum values, cases, transforms, CRC parameters, expressions) take exactly the written value, and a value that does not fit its position is rejected rather than silently wrapped.",
  ["inputs"], "all digit strings up to the bound in every literal position", "Tests use small literals.",
  [UT, LX, PA], [("parse_number_u32/i64/double", UT), ("number lexing", LX)], ["wire behaviour of the compiled schema", "compile status"])
p("P27", "Semantically invalid schemas are always rejected",
  "Duplicate field, struct, enum, enumerator or case names/values, unknown types, recursive structs, unaligned structs not ending on a byte boundary, decorators on unsupported types, out-of-range constants, unsized string arrays and missing or multiple packets make compilation fail, for every choice of names, widths and values involved.",
  ["inputs", "programs"], "all names/widths/values in templates of each error class", "Tests contain one example per error class.",
  [PA], [("parser_error calls", PA)], ["compile status"])
p("P28", "Formatting preserves meaning and is stable",
  "Formatting any schema source keeps its token sequence and comments, so the formatted source compiles to the same image (or fails in the same way), and formatting already formatted text changes nothing. Formatting never crashes on any text.",
  ["inputs", "programs"], "schema templates with windows of arbitrary bytes", "No test covers the formatter.",
  [FM], [("cnd_format_source", FM)], ["formatted text", "compiled image"])
p("P29", "Execution is pure: it touches only its context and the output buffer",
  "Running a program reads only its inputs and changes only its own context and, when encoding, the output buffer: decoding never modifies the data, the program is never modified, and there is no state shared between contexts. Equal inputs give equal results, so independent contexts can run interleaved or on different threads.",
  ["inputs", "schedules"], "all data and callback answers, corpus plus arbitrary bytecode; interleavings follow from disjoint write sets", "Tests run contexts one after another.",
  [VM, VI], [("context-passing, no globals", VM)], ["memory writes"])
p("P30", "The JSON host binding loses nothing between JSON and wire",
  "Decoding a message to JSON and encoding that JSON again with the same schema reproduces the message for every integer, float, bool, string, bitfield, nested struct and array value, and JSON values are never silently replaced by others. No message or JSON document can crash the binding.",
  ["inputs"], "all messages up to the bound for a schema corpus", "The CLI tests convert one JSON document per schema.",
  ["src/cli/json_binding.c", "src/cli/cli_helpers.c"], [("json_io_callback", "src/cli/json_binding.c")], ["JSON tree", "wire bytes"])
p("P31", "Command-line inspection tools survive any file",
  "Loading, inspecting or hex-dumping any file with the command-line tools terminates normally with output or an error message and never reads outside the file's contents. A valid image is listed completely, instruction by instruction.",
  ["inputs"], "all image files up to the bound", "No test feeds damaged files to the tools.",
  ["src/cli/cmd_inspect.c", "src/cli/cli_helpers.c", "src/tools/hexview.c"], [("disassembly loop", "src/cli/cmd_inspect.c")], ["exit status", "memory accesses"])
p("P32", "The language server survives any document and message",
  "Processing any document text or JSON-RPC message in the language server terminates without memory errors and keeps the server running; positions it reports lie inside the document.",
  ["inputs", "histories"], "documents with windows of arbitrary bytes, arbitrary cursor positions", "No test covers the language server.",
  ["src/cli/cmd_lsp.c"], [("document analysis", "src/cli/cmd_lsp.c")], ["responses", "memory accesses"])
p("P33", "Layout and comments never change what a schema means",
  "Inserting or removing spaces, tabs, line breaks or comments between any two tokens of a schema leaves the compiled image byte-for-byte unchanged, and diagnostics report the line where the error is.",
  ["inputs", "programs"], "all short layout strings (blank, newline, line/block comments with arbitrary text) at token boundaries of a corpus", "Tests use one layout per schema.",
  [LX], [("lexer_next whitespace and comment handling", LX)], ["output image"])
p("P34", "Imports are resolved once, relative to the importing file, and cycles end",
  "Importing a file makes its definitions available exactly once however often and through whatever path spelling it is reached; import cycles and missing files are reported or ignored without a hang or crash. Paths are resolved relative to the importing file and the importing file continues to be parsed where it left off.",
  ["inputs", "configurations"], "corpus of import graphs with symbolic path spellings", "Tests cover one chain and one cycle.",
  [PA, UT], [("parse_import, resolve_path", PA), ("cnd_canonicalize_path", UT)], ["compile status", "output image"])
p("P35", "The bindings generator reproduces the header's constants exactly",
  "For every constant and enumerator in the C header the generator emits one constant of the same value under the converted name, in header order; lines it does not understand are skipped without a crash.",
  ["inputs"], "header texts with windows of arbitrary bytes", "No test covers the generator.",
  ["src/tools/gen_bindings.c"], [("to_pascal_case and line parser", "src/tools/gen_bindings.c")], ["generated text", "memory accesses"])
p("P36", "The Go binding marshals exactly like the C library",
  "Encoding and decoding through the Go package gives the same bytes and values as the C library for every schema and value, and keeps Go memory alive for as long as the VM uses it.",
  ["inputs", "histories"], "all schemas and values, all garbage-collection points", "The Go tests use a few values.",
  ["go"], [("cgo bridge", "go")], ["wire bytes"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), [x["title"] for x in P if len(x["title"]) > 80])
