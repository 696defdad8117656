HOW = {
"P01": "`harness/step.h`: induction over instructions. The program counter, loop stack, expression stack, bit position, transform state and operands are symbolic under an invariant; one instruction of each opcode is executed with a host that may fail or answer anything; all accesses stay inside message, program and context, and the invariant holds again. Tests run fixed programs only.",
"P02": "Corpus schemas on every message length / buffer size; the oracle decides whether the result is OK or OOB; any access past the buffer is an engine error.",
"P03": "All integer/bool types × aliases × byte order × context against the codec oracle, all values.",
"P04": "As P03 for IEEE patterns (NaN payloads, signed zeros, subnormals included).",
"P05": "Bit fields at every start bit and width against a bit-by-bit oracle.",
"P06": "Padding, fill, alignment against the same oracle; neighbouring bits must survive.",
"P07": "Strings: framing, limits, terminators, prefix overflow.",
"P08": "Arrays of all five kinds; counts as symbolic prefixes, fields or expressions.",
"P09": "Layout plus callback names: key strings from the compiled image are compared, so every field has its own dotted name.",
"P10": "Constants over all wire bytes; literal text with symbolic digits.",
"P11": "Ranges, all values (64-bit and IEEE incl. NaN), symbolic literal text.",
"P12": "Enums, all values of the base type.",
"P13": "CRC against a bitwise reference with all parameters.",
"P14": "Transforms with wrapping arithmetic and overflow reporting against a 128-bit oracle.",
"P15": "Curves: IEEE-exact reference of the documented formula; encode(decode(raw)) = raw.",
"P16": "Expression trees are generated with the C expression that documents them (own precedence printer) and compared on all operand values.",
"P17": "if/else chains against C if/else in the oracle.",
"P18": "switch against C switch in the oracle, sparse and dense tables.",
"P19": "Every cut of messages with optional fields.",
"P20": "Reference run and a run whose k-th callback fails, k arbitrary: same prefix of calls, CALLBACK result, nothing called or written after.",
"P22": "`harness/verify.h`: an independent table of instruction sizes and operand rules; accepted programs are then executed on the VM and may not fail structurally. Jump offsets take all 2^32 values.",
"P24": "Loader and lookups against a direct reading of the image bytes.",
"P29": "Two equal runs, the second re-entered by a complete run of another context at every host call; program, message and all globals are read-only objects.",
"P23": "`harness/source.h` walks the image with its own instruction-size table (header, string table, key ids, jump tables, verifier verdict) for every corpus schema, the examples, and texts with symbolic digits and names in every position.",
"P25": "Symbolic bytes at every token of texts that use the whole language, every token removed, repeated, replaced or the text cut there; the engine reports any memory error, undefined behaviour, non-termination, and `so_any` compares exit status, diagnostics and image.",
"P28": "`harness/format.h`: a separate tokeniser compares the token and comment sequence before and after, formats twice, and compiles both texts; arbitrary bytes everywhere.",
"P33": "`harness/layout.h`: the schema is compiled once as written and once with symbolic layout inserted at a symbolic token boundary: identical image. For invalid schemas the line of the first diagnostic follows the erroneous statement.",
"P34": "`harness/import.h`: symbolic import targets in a four-file graph against a graph walk in the oracle, symbolic path characters against an independent path resolution, and the image compared with the definitions written out in one file.",
"P26": "`harness/literal.h`: literals with symbolic digits in each of 66 positions; their value is computed independently (with overflow), the compile result must be accept iff it fits, and the operand is read back from the image.",
"P27": "`harness/semantic.h`: templates of each error class with symbolic identifiers (of equal or different length) and numbers; a C condition states when the schema is wrong, and compilation must fail exactly then.",
"P31": "`harness/inspect.h` records everything the tool prints as literal text and values; every instruction of an image (operands symbolic) must appear once, at its offset, with its name and all operand values in order. Damaged images, headers and string areas: the engine reports any access outside the file, hang or undefined behaviour; the image loader is compared with a direct reading of the header.",
}
