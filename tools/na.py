NA = {
 "P30": "the binding reads and builds every JSON value through cJSON, which is present only as a compiled shared library: without its source or IR the code that decides what is lost (number parsing, printing, tree building) cannot be executed symbolically, and a hand-written stand-in would be the thing verified",
 "P32": "the language server parses every message and builds every answer with cJSON, which is present only as a compiled shared library and cannot be encoded; the compiler it runs on each document is covered by P25",
 "P36": "the Go binding is Go code calling C through cgo; no symbolic executor for Go (or for code crossing the cgo boundary) is available here, so its marshalling cannot be encoded for an SMT solver without rewriting it by hand",
}
