From 03fbcd7b2c4c8a64a7cdffc2472d1732b42d6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 01/34] fix: byte order overrides hold for their field only and
 @be works on packets

---
 src/compiler/cnd_internal.h |  7 +++++
 src/compiler/cnd_parser.c   | 53 ++++++++++++++++++++++++++++++++-----
 src/compiler/cnd_utils.c    | 12 +++++++++
 3 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..26d1a24 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -167,6 +167,9 @@ typedef struct {
     int line;
     char* file; // File path where defined
     char* doc_comment;
+    size_t* endian_restores; // Bytecode offsets of SET_ENDIAN ops that return to the using packet's byte order
+    size_t endian_restore_count;
+    size_t endian_restore_cap;
 } StructDef;
 
 typedef struct {
@@ -180,6 +183,8 @@ void reg_free(StructRegistry* r);
 StructDef* reg_add(StructRegistry* r, const char* name, int len, int line, const char* file, const char* doc);
 StructDef* reg_find(StructRegistry* r, const char* name, int len);
 
+void struct_add_endian_restore(StructDef* def, size_t offset);
+
 // --- Utils: Enum Registry ---
 typedef struct {
     char* name;
@@ -245,6 +250,8 @@ typedef struct {
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
     int pending_be;        // Flag: Next struct is @big_endian
     int pending_le;        // Flag: Next struct is @little_endian
+    int big_endian;        // Byte order in force where bytecode is being emitted
+    StructDef* endian_def; // Struct whose byte order is decided by its user here, NULL when it is known
     int in_bit_mode;       // Flag: Currently parsing inside @unaligned_bytes struct
     
     // Bit Tracking for Validation
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..8289d13 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -727,6 +727,23 @@ void parse_switch(Parser* p) {
     if(jump_fixups) free(jump_fixups);
 }
 
+// Emits the return to the byte order that was in force before an override
+static void restore_endian(Parser* p, int big_endian, StructDef* def) {
+    p->big_endian = big_endian;
+    p->endian_def = def;
+    if (def) struct_add_endian_restore(def, buf_current_offset(p->target));
+    buf_push(p->target, big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+}
+
+// Points the byte order restores of struct code inlined at `base` to the byte order in force there
+static void resolve_struct_endian(Parser* p, const StructDef* sdef, size_t base) {
+    for (size_t i = 0; i < sdef->endian_restore_count; i++) {
+        size_t offset = base + sdef->endian_restores[i];
+        buf_write_u8_at(p->target, offset, p->big_endian ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+        if (p->endian_def) struct_add_endian_restore(p->endian_def, offset);
+    }
+}
+
 void parse_field(Parser* p, const char* doc) {
     (void)doc;
     if (p->had_error) return;
@@ -753,7 +770,7 @@ void parse_field(Parser* p, const char* doc) {
     int has_fixed_array_count = 0;
     uint64_t const_val = 0;
     int has_const = 0;
-    int is_big_endian_field = 0;
+    int endian_override = -1; // -1: none, 0: little, 1: big
     int is_standalone_op = 0;
     
     int has_range = 0;
@@ -796,9 +813,9 @@ void parse_field(Parser* p, const char* doc) {
         consume(p, TOK_IDENTIFIER, "Expect decorator name");
         
         if (match_keyword(dec_name_token, "big_endian") || match_keyword(dec_name_token, "be")) {
-            is_big_endian_field = 1;
+            endian_override = 1;
         } else if (match_keyword(dec_name_token, "little_endian") || match_keyword(dec_name_token, "le")) {
-             is_big_endian_field = 0;
+            endian_override = 0;
         } else if (match_keyword(dec_name_token, "fill")) {
             is_standalone_op = 1;
             uint8_t fill_val = 0;
@@ -1061,7 +1078,15 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
+    // A field override holds for this field only; the byte order around it is restored below
+    int outer_be = p->big_endian;
+    StructDef* outer_endian_def = p->endian_def;
+    int has_endian_override = endian_override >= 0 && (outer_endian_def || endian_override != outer_be);
+    if (has_endian_override) {
+        buf_push(p->target, endian_override ? OP_SET_ENDIAN_BE : OP_SET_ENDIAN_LE);
+        p->big_endian = endian_override;
+        p->endian_def = NULL;
+    }
 
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
@@ -1165,8 +1190,10 @@ void parse_field(Parser* p, const char* doc) {
             field_name[field_name_len] = '\0';
             
             // Append struct bytecode with field names prefixed
+            size_t struct_base = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
                                    field_name, field_name_len, &p->strtab);
+            resolve_struct_endian(p, sdef, struct_base);
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
@@ -1291,7 +1318,7 @@ void parse_field(Parser* p, const char* doc) {
 
     consume(p, TOK_SEMICOLON, "Expect ; after field");
 
-    if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_LE); }
+    if (has_endian_override) { restore_endian(p, outer_be, outer_endian_def); }
 }
 
 void parse_block(Parser* p) {
@@ -1441,9 +1468,16 @@ void parse_struct(Parser* p, const char* doc) {
     int prev_bit_count = p->current_bit_count;
     int prev_bit_valid = p->is_bit_count_valid;
 
+    int outer_be = p->big_endian;
+    StructDef* outer_endian_def = p->endian_def;
+    p->big_endian = 0;
+    p->endian_def = def;
+
     if (p->pending_unaligned) {
         buf_push(p->target, OP_ENTER_BIT_MODE);
         buf_push(p->target, OP_SET_ENDIAN_BE);
+        p->big_endian = 1;
+        p->endian_def = NULL;
         p->in_bit_mode = 1;
         p->pending_unaligned = 0;
         p->current_bit_count = 0;
@@ -1466,8 +1500,11 @@ void parse_struct(Parser* p, const char* doc) {
             parser_error(p, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
+        restore_endian(p, 0, def);
         p->in_bit_mode = 0;
     }
+    p->big_endian = outer_be;
+    p->endian_def = outer_endian_def;
     p->in_bit_mode = was_in_bit_mode;
     p->current_bit_count = prev_bit_count;
     p->is_bit_count_valid = prev_bit_valid;
@@ -1512,7 +1549,9 @@ void parse_packet(Parser* p, const char* doc) {
             parser_error(p, "Struct not found");
         } else {
             // Inline the struct's bytecode
+            size_t struct_base = buf_current_offset(p->target);
             buf_append(p->target, sdef->bytecode.data, sdef->bytecode.size);
+            resolve_struct_endian(p, sdef, struct_base);
         }
     } else {
         strtab_init(&p->current_struct_fields);
@@ -1637,10 +1676,12 @@ void parse_top_level(Parser* p) {
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-            } else if (match_keyword(dec, "big_endian")) {
+            } else if (match_keyword(dec, "big_endian") || match_keyword(dec, "be")) {
                 buf_push(p->target, OP_SET_ENDIAN_BE);
+                p->big_endian = 1;
             } else if (match_keyword(dec, "little_endian") || match_keyword(dec, "le")) {
                 buf_push(p->target, OP_SET_ENDIAN_LE);
+                p->big_endian = 0;
             } else if (match_keyword(dec, "unaligned_bytes")) {
                 p->pending_unaligned = 1;
             } else {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..0a69bb1 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -348,6 +348,7 @@ void reg_free(StructRegistry* r) {
         if (r->defs[i].file) free(r->defs[i].file);
         if (r->defs[i].doc_comment) free(r->defs[i].doc_comment);
         buf_free(&r->defs[i].bytecode);
+        free(r->defs[i].endian_restores);
     }
     free(r->defs);
     r->count = 0;
@@ -368,9 +369,20 @@ StructDef* reg_add(StructRegistry* r, const char* name, int len, int line, const
     def->file = file ? strdup(file) : NULL;
     def->doc_comment = doc ? strdup(doc) : NULL;
     buf_init(&def->bytecode);
+    def->endian_restores = NULL;
+    def->endian_restore_count = 0;
+    def->endian_restore_cap = 0;
     return def;
 }
 
+void struct_add_endian_restore(StructDef* def, size_t offset) {
+    if (def->endian_restore_count >= def->endian_restore_cap) {
+        def->endian_restore_cap = (def->endian_restore_cap == 0) ? 8 : def->endian_restore_cap * 2;
+        def->endian_restores = realloc(def->endian_restores, def->endian_restore_cap * sizeof(size_t));
+    }
+    def->endian_restores[def->endian_restore_count++] = offset;
+}
+
 StructDef* reg_find(StructRegistry* r, const char* name, int len) {
     for (size_t i = 0; i < r->count; i++) {
         if (strlen(r->defs[i].name) == (size_t)len && strncmp(r->defs[i].name, name, len) == 0) {
-- 
2.43.0


From 1f0206a712b89e0c7889c4c19b9aef0914a20ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 02/34] fix: program verification knows every instruction's
 real length and only accepts jumps to instructions

---
 src/vm/vm_internal.h | 176 +++++++++++++++++++
 src/vm/vm_verify.c   | 398 +++++++++++++++----------------------------
 2 files changed, 314 insertions(+), 260 deletions(-)

diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..5451197 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -50,6 +50,182 @@ static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
+// --- IL Structure ---
+
+// Shape of one instruction: its length, its key ids and (for switches) its jump table.
+typedef struct {
+    size_t size;        // Opcode plus operands
+    int key_count;      // Number of key ids among the operands
+    size_t key_off[2];  // Offset of each key id from the opcode
+    size_t table_start; // Jump table [table_start, table_end); both 0 if there is none
+    size_t table_end;
+} il_instr;
+
+// Size of a scalar type opcode used as an operand, 0 if it is not one
+static inline size_t il_type_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
+        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
+        default: return 0;
+    }
+}
+
+static inline uint64_t il_uint(const uint8_t* p, int n) {
+    uint64_t v = 0;
+    for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i);
+    return v;
+}
+
+// Decodes the instruction at `ip`. Fails with CND_ERR_INVALID_OP on an undefined opcode or operand type,
+// and with CND_ERR_OOB if the instruction or its jump table is not completely inside the bytecode.
+static inline cnd_error_t il_decode(const uint8_t* bc, size_t len, size_t ip, il_instr* in) {
+    in->size = 1;
+    in->key_count = 0;
+    in->key_off[0] = in->key_off[1] = 1;
+    in->table_start = in->table_end = 0;
+    if (ip >= len) return CND_ERR_OOB;
+
+    uint8_t op = bc[ip];
+    size_t left = len - ip;
+    size_t type_at = 0; // Offset of a type operand, 0 if none
+
+    switch (op) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT: case OP_ARR_END:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            return CND_ERR_OK;
+
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL:
+            in->size = 2;
+            break;
+
+        case OP_EMIT:
+            in->size = 2;
+            type_at = 1;
+            break;
+
+        // Key id only
+        case OP_ENTER_STRUCT: case OP_META_NAME: case OP_LOAD_CTX: case OP_STORE_CTX:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF:
+            in->key_count = 1;
+            in->size = 3;
+            break;
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I: // Key(2) + Bits(1)
+            in->key_count = 1;
+            in->size = 4;
+            break;
+
+        case OP_STR_NULL: // Key(2) + MaxLen(2)
+            in->key_count = 1;
+            in->size = 5;
+            break;
+
+        case OP_ARR_FIXED: case OP_RAW_BYTES: // Key(2) + Count(4)
+            in->key_count = 1;
+            in->size = 7;
+            break;
+
+        case OP_ARR_DYNAMIC: // Key(2) + RefKey(2)
+            in->key_count = 2;
+            in->key_off[1] = 3;
+            in->size = 5;
+            break;
+
+        case OP_CONST_CHECK: // Key(2) + Type(1) + Value
+            in->key_count = 1;
+            in->size = 4;
+            type_at = 3;
+            break;
+
+        case OP_CONST_WRITE: // Type(1) + Value
+        case OP_RANGE_CHECK: // Type(1) + Min + Max
+            in->size = 2;
+            type_at = 1;
+            break;
+
+        case OP_ENUM_CHECK: // Type(1) + Count(2) + Values
+            in->size = 4;
+            type_at = 1;
+            break;
+
+        case OP_TRANS_POLY: // Count(1) + Coefficients
+        case OP_TRANS_SPLINE: // Count(1) + Points
+            if (left < 2) return CND_ERR_OOB;
+            in->size = 2 + (size_t)bc[ip + 1] * (op == OP_TRANS_POLY ? 8 : 16);
+            break;
+
+        case OP_SCALE_LIN: in->size = 17; break;
+        case OP_CRC_16: in->size = 8; break;
+        case OP_CRC_32: in->size = 14; break;
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: case OP_PUSH_IMM:
+            in->size = 9;
+            break;
+
+        case OP_JUMP: case OP_JUMP_IF_NOT:
+            in->size = 5;
+            break;
+
+        case OP_SWITCH: case OP_SWITCH_TABLE: // Key(2) + Table offset(4)
+            in->key_count = 1;
+            in->size = 7;
+            break;
+
+        default:
+            return CND_ERR_INVALID_OP;
+    }
+    if (in->size > left) return CND_ERR_OOB;
+
+    if (type_at) {
+        uint8_t type = bc[ip + type_at];
+        size_t ts = il_type_size(type);
+        bool is_float = (type == OP_IO_F32 || type == OP_IO_F64);
+        if (ts == 0) return CND_ERR_INVALID_OP;
+        if (op != OP_EMIT && type == OP_IO_BOOL) return CND_ERR_INVALID_OP;
+        if (op != OP_EMIT && op != OP_RANGE_CHECK && is_float) return CND_ERR_INVALID_OP;
+        if (op == OP_CONST_WRITE && type >= OP_IO_I8) return CND_ERR_INVALID_OP;
+        if (op == OP_CONST_CHECK || op == OP_CONST_WRITE) in->size += ts;
+        else if (op == OP_RANGE_CHECK) in->size += 2 * ts;
+        else if (op == OP_ENUM_CHECK) in->size += ts * (size_t)il_uint(bc + ip + 2, 2);
+        if (in->size > left) return CND_ERR_OOB;
+    }
+
+    if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+        size_t rel = (size_t)il_uint(bc + ip + 3, 4);
+        size_t head = (op == OP_SWITCH) ? 6 : 20; // Count(2) + Default(4), or Min(8) + Max(8) + Default(4)
+        if (rel > left - in->size || left - in->size - rel < head) return CND_ERR_OOB;
+        size_t room = left - in->size - rel - head;
+        in->table_start = ip + in->size + rel;
+        const uint8_t* t = bc + in->table_start;
+        if (op == OP_SWITCH) {
+            size_t count = (size_t)il_uint(t, 2);
+            if (count > room / 12) return CND_ERR_OOB;
+            in->table_end = in->table_start + head + count * 12;
+        } else {
+            uint64_t min_val = il_uint(t, 8);
+            uint64_t max_val = il_uint(t + 8, 8);
+            if (max_val < min_val) return CND_ERR_VALIDATION;
+            if (max_val - min_val >= room / 4) return CND_ERR_OOB;
+            in->table_end = in->table_start + head + ((size_t)(max_val - min_val) + 1) * 4;
+        }
+    }
+    return CND_ERR_OK;
+}
+
 // --- Data Access (Read) ---
 
 static inline uint8_t read_u8(const uint8_t* buf) {
diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..a1a9c62 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,282 +1,160 @@
 #include "concordia.h"
 #include "vm_internal.h"
 
-cnd_error_t cnd_verify_program(const cnd_program* program)
-{
-    if (!program || !program->bytecode) {
-        return CND_ERR_OOB;
-    }
+// Switch tables may be nested this deep
+#define VERIFY_MAX_NESTING 64
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
-    const uint8_t* bc = program->bytecode;
+// Linear walk over the instructions of a program, stepping over the jump tables
+typedef struct {
+    const uint8_t* bc;
+    size_t len;
+    size_t ip;
+    int depth;         // Array loops open at ip
+    bool falls;        // The instruction before ip can continue at ip
+    size_t table_start[VERIFY_MAX_NESTING]; // Enclosing switches
+    size_t table_end[VERIFY_MAX_NESTING];
+    int nesting;
+} verify_walk;
 
-    while (ip < len) {
-        uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
+static void walk_init(verify_walk* w, const cnd_program* program) {
+    w->bc = program->bytecode;
+    w->len = program->bytecode_len;
+    w->ip = 0;
+    w->depth = 0;
+    w->falls = true;
+    w->nesting = 0;
+}
 
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
+// Decodes the instruction at w->ip and moves behind it
+static cnd_error_t walk_next(verify_walk* w, il_instr* in) {
+    cnd_error_t err = il_decode(w->bc, w->len, w->ip, in);
+    if (err != CND_ERR_OK) return err;
 
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
+    size_t limit = w->nesting ? w->table_start[w->nesting - 1] : w->len;
+    if (w->ip + in->size > limit || in->table_end > limit) return CND_ERR_OOB;
 
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
+    uint8_t op = w->bc[w->ip];
+    switch (op) {
+        case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF: case OP_ARR_DYNAMIC:
+            w->depth++;
+            break;
+        case OP_ARR_END:
+            if (w->depth == 0) return CND_ERR_INVALID_OP;
+            w->depth--;
+            break;
+        default:
+            break;
+    }
+    w->falls = (op != OP_JUMP && !in->table_end);
+    w->ip += in->size;
 
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
-                break;
+    if (in->table_end) {
+        if (w->nesting >= VERIFY_MAX_NESTING) return CND_ERR_OOB;
+        w->table_start[w->nesting] = in->table_start;
+        w->table_end[w->nesting] = in->table_end;
+        w->nesting++;
+    }
+    return CND_ERR_OK;
+}
 
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
+// Steps over the jump tables that start at w->ip
+static void walk_skip_tables(verify_walk* w) {
+    while (w->nesting && w->ip == w->table_start[w->nesting - 1]) {
+        w->nesting--;
+        w->ip = w->table_end[w->nesting];
+        w->falls = true;
+    }
+}
 
-            case OP_JUMP:
-            case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
+// A jump table that is executed must be plain straight-line code itself
+static bool table_is_code(const uint8_t* bc, size_t start, size_t end) {
+    while (start < end) {
+        il_instr in;
+        if (il_decode(bc, end, start, &in) != CND_ERR_OK || in.table_end) return false;
+        switch (bc[start]) {
+            case OP_JUMP: case OP_JUMP_IF_NOT: case OP_ARR_END: case OP_ARR_FIXED: case OP_ARR_PRE_U8:
+            case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF: case OP_ARR_DYNAMIC:
+                return false;
+            default:
                 break;
+        }
+        start += in.size;
+    }
+    return true;
+}
 
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
-            case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
+static bool target_in_program(const cnd_program* program, size_t from, int32_t offset) {
+    int64_t target = (int64_t)from + offset;
+    return target >= 0 && (uint64_t)target <= program->bytecode_len;
+}
 
-            default:
-                return CND_ERR_INVALID_OP;
+// A jump must lead to an instruction (or the end of the program) inside the same array loop
+static cnd_error_t check_target(const cnd_program* program, size_t from, int32_t offset, int depth) {
+    int64_t target = (int64_t)from + offset;
+    verify_walk w;
+    il_instr in;
+    walk_init(&w, program);
+    for (;;) {
+        if (w.nesting && w.ip == w.table_start[w.nesting - 1] && w.ip == (size_t)target) {
+            if (!table_is_code(w.bc, w.ip, w.table_end[w.nesting - 1])) return CND_ERR_INVALID_OP;
+            break;
         }
+        walk_skip_tables(&w);
+        if (w.ip >= (size_t)target) break;
+        cnd_error_t err = walk_next(&w, &in);
+        if (err != CND_ERR_OK) return err;
+    }
+    if (w.ip != (size_t)target || w.depth != depth) return CND_ERR_INVALID_OP;
+    return CND_ERR_OK;
+}
 
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
+cnd_error_t cnd_verify_program(const cnd_program* program)
+{
+    if (!program || !program->bytecode) {
+        return CND_ERR_OOB;
+    }
 
-        // Additional checks for JMP
-        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
+    // 1. Every instruction and jump table is complete and well formed
+    const uint8_t* bc = program->bytecode;
+    verify_walk w;
+    il_instr in;
+    walk_init(&w, program);
+    while (w.ip < w.len) {
+        if (w.nesting && w.ip == w.table_start[w.nesting - 1] && w.falls &&
+            !table_is_code(bc, w.ip, w.table_end[w.nesting - 1])) return CND_ERR_INVALID_OP;
+        walk_skip_tables(&w);
+        if (w.ip >= w.len) break;
+        cnd_error_t err = walk_next(&w, &in);
+        if (err != CND_ERR_OK) return err;
+    }
+
+    // 2. Every jump leads to an instruction
+    walk_init(&w, program);
+    for (;;) {
+        walk_skip_tables(&w);
+        if (w.ip >= w.len) break;
+        uint8_t op = bc[w.ip];
+        size_t operand = w.ip + 1;
+        cnd_error_t err = walk_next(&w, &in);
+        if (err != CND_ERR_OK) return err;
+
+        if (op == OP_JUMP || op == OP_JUMP_IF_NOT) {
+            if (!target_in_program(program, w.ip, (int32_t)il_uint(bc + operand, 4))) return CND_ERR_OOB;
+            err = check_target(program, w.ip, (int32_t)il_uint(bc + operand, 4), w.depth);
+            if (err != CND_ERR_OK) return err;
+        } else if (in.table_end) {
+            // SWITCH: Default at 2, then Value(8) + Offset(4); SWITCH_TABLE: Default at 16, then Offset(4)
+            size_t head = (op == OP_SWITCH) ? 2 : 16;
+            size_t step = (op == OP_SWITCH) ? 12 : 4;
+            for (size_t at = in.table_start + head; at < in.table_end; at += step) {
+                if (!target_in_program(program, w.ip, (int32_t)il_uint(bc + at, 4))) return CND_ERR_OOB;
+            }
+            for (size_t at = in.table_start + head; at < in.table_end; at += step) {
+                err = check_target(program, w.ip, (int32_t)il_uint(bc + at, 4), w.depth);
+                if (err != CND_ERR_OK) return err;
             }
         }
-
-        ip += instr_len;
     }
 
     return CND_ERR_OK;
-- 
2.43.0


From c78b51e7055b4c43f44efb2293adeba0d7651972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 03/34] fix: skipping an empty array steps over whole
 instructions

---
 src/vm/vm_exec.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..b01656b 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -303,15 +303,22 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 
 // --- Loop Stack Helpers ---
 
-static void skip_loop_body(cnd_vm_ctx* ctx) {
+// Moves past the ARR_END of the loop whose body starts at ctx->ip
+static bool skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
     int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+    while (ctx->ip < len && depth > 0) {
+        uint8_t op = bc[ctx->ip];
+        il_instr in;
+        if (il_decode(bc, len, ctx->ip, &in) != CND_ERR_OK) return false;
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        // The arrays in the cases of a switch are balanced: continue behind its jump table
+        ctx->ip = in.table_end ? in.table_end : ctx->ip + in.size;
     }
+    return true;
 }
 
 static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
@@ -379,7 +386,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (!loop_push(ctx, ctx->ip, (uint32_t)count)) return CND_ERR_OOB; \
         } else { \
              SYNC_IP(); \
-             skip_loop_body(ctx); \
+             if (!skip_loop_body(ctx)) return CND_ERR_INVALID_OP; \
              RELOAD_PC(); \
         } \
         break; \
@@ -1136,7 +1143,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
                      SYNC_IP();
-                     skip_loop_body(ctx);
+                     if (!skip_loop_body(ctx)) return CND_ERR_INVALID_OP;
                      RELOAD_PC();
                 }
                 break;
@@ -1156,7 +1163,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
-                    skip_loop_body(ctx);
+                    if (!skip_loop_body(ctx)) return CND_ERR_INVALID_OP;
                     RELOAD_PC();
                 }
                 break;
@@ -1181,7 +1188,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
-                     skip_loop_body(ctx);
+                     if (!skip_loop_body(ctx)) return CND_ERR_INVALID_OP;
                      RELOAD_PC();
                 }
                 break;
-- 
2.43.0


From c502f9612712eadad0a392b95ecbc54bd1a3ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:17 +0000
Subject: [PATCH 04/34] fix: bit fields and padding never run past the end of
 the data buffer

---
 src/vm/vm_exec.c     | 8 +++++++-
 src/vm/vm_internal.h | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index b01656b..7da0c90 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -984,7 +984,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(b==0 || b>64) return CND_ERR_INVALID_OP; if(!has_bits(ctx,b)) return CND_ERR_OOB; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1003,6 +1003,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (ctx->bit_offset > 0) {
                     uint8_t bits_needed = 8 - ctx->bit_offset;
                     uint64_t fill_val = (fill_bit ? 0xFFFFFFFFFFFFFFFF : 0);
+                    if (!has_bits(ctx, bits_needed)) return CND_ERR_OOB;
                     
                     if (ctx->mode == CND_MODE_ENCODE) {
                         write_bits(ctx, fill_val, bits_needed);
@@ -1016,6 +1017,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
+                if(b==0 || b>64) return CND_ERR_INVALID_OP;
+                if(!has_bits(ctx,b)) return CND_ERR_OOB;
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1031,6 +1034,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
+                if (!has_bits(ctx, 1)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -1046,7 +1050,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!has_bits(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
+                    while (b > 64) { write_bits(ctx, 0, 64); b -= 64; }
                     write_bits(ctx, 0, b);
                 } else {
                     size_t total_bits = ctx->bit_offset + b;
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 5451197..1c7e869 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -128,6 +128,8 @@ static inline cnd_error_t il_decode(const uint8_t* bc, size_t len, size_t ip, il
         case OP_IO_BIT_U: case OP_IO_BIT_I: // Key(2) + Bits(1)
             in->key_count = 1;
             in->size = 4;
+            if (left < in->size) return CND_ERR_OOB;
+            if (bc[ip + 3] == 0 || bc[ip + 3] > 64) return CND_ERR_INVALID_OP;
             break;
 
         case OP_STR_NULL: // Key(2) + MaxLen(2)
@@ -270,6 +272,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if the next `count` bits are inside the data buffer
+static inline bool has_bits(const cnd_vm_ctx* ctx, size_t count) {
+    if (ctx->cursor > ctx->data_len) return false;
+    return (ctx->bit_offset + count + 7) / 8 <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
-- 
2.43.0


From 352ba8256f0adaf4e7e8d4814249cbbbfbabe745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:24 +0000
Subject: [PATCH 05/34] fix: enum checks stay inside the program and the data,
 and NaN is outside every range

---
 src/vm/vm_exec.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 7da0c90..44304b5 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -298,7 +298,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; \
     }
 
 // --- Loop Stack Helpers ---
@@ -799,6 +799,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint16_t count = FETCH_IL_U16(ctx);
                 bool found = false;
+                size_t val_size = il_type_size(type);
+                
+                // The value was just read or written, and the whole list must be part of the program
+                if (val_size == 0) return CND_ERR_INVALID_OP;
+                if (ctx->cursor < val_size || (size_t)count * val_size > (size_t)(end - pc)) return CND_ERR_OOB;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
                     ctype actual = (READ_EXPR); \
-- 
2.43.0


From 9be60bf3e182d25b2b4f63933600b075e9d0a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 06/34] fix: a jump table index too large for the table is
 rejected instead of wrapping around

---
 src/vm/vm_exec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 44304b5..a26e0ca 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1333,10 +1333,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     uint64_t index = disc_val - min_val;
                     // Offset is at table_start + 8 + 8 + 4 + index * 4
                     // We are currently at table_start + 20 (ctx->ip)
-                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
-                    
                     // Check bounds for the offset entry
-                    if (offset_loc + 4 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                    if (index >= (ctx->program->bytecode_len - ctx->ip) / 4) return CND_ERR_OOB;
+                    size_t offset_loc = ctx->ip + (size_t)(index * 4);
                     
                     target_off = (int32_t)peek_il_u32(ctx, offset_loc);
                 }
-- 
2.43.0


From 2f866c52dc7ac9907e61b971ee8e213db1dbd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:48 +0000
Subject: [PATCH 07/34] fix: integer transforms, conversions to integers and
 shifts are defined for every value

---
 src/vm/vm_exec.c | 93 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 33 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index a26e0ca..6de4fda 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -95,22 +95,55 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// Integer arithmetic wraps around like the wire types do; it never overflows
+static inline int64_t vm_math_add(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
+static inline int64_t vm_math_sub(int64_t a, int64_t b) { return (int64_t)((uint64_t)a - (uint64_t)b); }
+static inline int64_t vm_math_mul(int64_t a, int64_t b) { return (int64_t)((uint64_t)a * (uint64_t)b); }
+static inline int64_t vm_math_div(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return vm_math_sub(0, a);
+    return a / b;
+}
+
+// Converts to int64, saturating at its limits (NaN becomes 0)
+static inline int64_t vm_math_to_i64(double d) {
+    if (!(d > -9223372036854775808.0)) return (d != d) ? 0 : INT64_MIN;
+    if (d >= 9223372036854775808.0) return INT64_MAX;
+    return (int64_t)d;
+}
+
+// Converts an engineering value to a raw field of `size` bytes, saturating at its limits (NaN becomes 0)
+static inline uint64_t vm_math_to_raw(double d, int size, bool is_signed) {
+    if (is_signed) {
+        int64_t max = (int64_t)(UINT64_MAX >> (65 - 8 * size));
+        int64_t v = vm_math_to_i64(d);
+        if (v > max) v = max;
+        if (v < -max - 1) v = -max - 1;
+        return (uint64_t)v;
+    }
+    uint64_t max = UINT64_MAX >> (64 - 8 * size);
+    if (!(d > 0)) return 0;
+    if (d >= 18446744073709551616.0) return max;
+    uint64_t v = (uint64_t)d;
+    return v > max ? max : v;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return vm_math_add(raw, ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return vm_math_sub(raw, ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_mul(raw, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_div(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return vm_math_sub(eng, ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return vm_math_add(eng, ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_math_div(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_math_mul(eng, ctx->trans_i_val);
         default: return eng;
     }
 }
@@ -139,7 +172,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  ctype val = (ctype)vm_math_to_raw((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor, (size), (ctype)-1 < (ctype)1); \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -152,7 +185,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  ctype val = (ctype)vm_math_to_raw(vm_math_poly_solve(ctx, eng_val), (size), (ctype)-1 < (ctype)1); \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -165,7 +198,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  ctype val = (ctype)vm_math_to_raw(vm_math_spline_solve(ctx, eng_val), (size), (ctype)-1 < (ctype)1); \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -236,27 +269,11 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  ctype val = (ctype)raw64; \
+                  ctype val = (ctype)vm_math_int_to_raw(ctx, eng_val); \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  eng_val = vm_math_int_to_eng(ctx, vm_math_to_i64(val)); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -1579,7 +1596,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                if (stack_push(ctx, (uint64_t)vm_math_sub(0, (int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1649,7 +1666,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
-                int64_t i = (int64_t)f;
+                int64_t i = vm_math_to_i64(f);
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
@@ -1667,8 +1684,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL: {
+                uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (stack_push(ctx, b < 64 ? a << b : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                break;
+            }
+            case OP_SHR: {
+                uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
+                if (stack_push(ctx, b < 64 ? a >> b : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                break;
+            }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From 39403c164d1efe93b08ad3cf84a9555d3082f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 08/34] fix: @poly and @spline also apply to float fields

---
 src/vm/vm_exec.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 6de4fda..4a32cde 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -264,6 +264,20 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
+          } else if (ctx->trans_type == CND_TRANS_POLY || ctx->trans_type == CND_TRANS_SPLINE) { \
+              bool poly = (ctx->trans_type == CND_TRANS_POLY); \
+              double eng_val = 0; \
+              if (ctx->mode == CND_MODE_ENCODE) { \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                  ctype val = (ctype)(poly ? vm_math_poly_solve(ctx, eng_val) : vm_math_spline_solve(ctx, eng_val)); \
+                  int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
+              } else { \
+                  int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  eng_val = poly ? vm_math_poly_eval(ctx, val) : vm_math_spline_eval(ctx, val); \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              } \
           } else { \
               int64_t eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
-- 
2.43.0


From bd2369af41bb35be7072c6a0fed09e9fe002ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 09/34] fix: an until-EOF array at the end of the data no
 longer leaves its loop open

---
 src/vm/vm_exec.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 4a32cde..0369eab 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1197,17 +1197,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
 
-                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
-                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
-                frame->start_ip = ctx->ip;
-                frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
                 // Check if we are already at EOF
                 if (ctx->cursor >= ctx->data_len) {
                     // Skip loop
                     if (!skip_loop_body(ctx)) return CND_ERR_INVALID_OP;
                     RELOAD_PC();
+                    break;
                 }
+
+                if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
+                cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
+                frame->start_ip = ctx->ip;
+                frame->remaining = 0; // Special value for EOF loop: counted loops run at least once
                 break;
             }
 
@@ -1243,12 +1244,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 bool loop_continue = false;
                 
-                if (frame->remaining == 0xFFFFFFFF) {
+                if (frame->remaining == 0) {
                     // EOF Loop
                     if (ctx->cursor < ctx->data_len) loop_continue = true;
                 } else {
                     // Fixed/Prefixed Loop
-                    if (frame->remaining > 0) frame->remaining--;
+                    frame->remaining--;
                     if (frame->remaining > 0) loop_continue = true;
                 }
                 
-- 
2.43.0


From d310a3b0f27017156f53baf6a8f1f64dab3719f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 10/34] fix: loading an image checks that its string table ends
 inside the image

---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 0369eab..6a7dab0 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -597,6 +597,14 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
+    // Every string must end inside the image: key lookups rely on the terminators
+    size_t pos = str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const void* nul = memchr(image + pos, 0, len - pos);
+        if (!nul) return CND_ERR_OOB;
+        pos = (size_t)((const uint8_t*)nul - image) + 1;
+    }
+
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
     program->bytecode = image + bc_offset;
-- 
2.43.0


From 9fb29ea6175ec8b883c68bb7fb837f0552eea2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 11/34] fix: a missing optional field is not validated and does
 not pass its transform on

---
 src/vm/vm_exec.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 6a7dab0..c0b1e2b 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -159,6 +159,8 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
               ctx->is_next_optional = false; \
+              ctx->trans_type = CND_TRANS_NONE; \
+              absent = true; \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -243,6 +245,8 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
               ctx->is_next_optional = false; \
+              ctx->trans_type = CND_TRANS_NONE; \
+              absent = true; \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -731,6 +735,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #define SYNC_IP() (ctx->ip = (size_t)(pc - ctx->program->bytecode))
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
 
+    bool absent = false; // The last field was optional and is missing: nothing to validate
+
     while (pc < end) {
         uint8_t opcode = *pc++;
         // printf("Opcode: %02X at IP %zu\n", opcode, (size_t)(pc - ctx->program->bytecode - 1));
@@ -743,6 +749,19 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
         }
 
+        if (opcode == OP_RANGE_CHECK || opcode == OP_ENUM_CHECK) {
+            if (absent) {
+                il_instr in;
+                size_t at = (size_t)(pc - 1 - ctx->program->bytecode);
+                cnd_error_t err = il_decode(ctx->program->bytecode, ctx->program->bytecode_len, at, &in);
+                if (err != CND_ERR_OK) return err;
+                pc += in.size - 1;
+                continue;
+            }
+        } else {
+            absent = false;
+        }
+
         switch (opcode) {
             case OP_NOOP: break;
             case OP_SET_ENDIAN_LE: ctx->endianness = CND_LE; break;
@@ -1000,6 +1019,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (ctx->cursor + 1 > ctx->data_len) {
                     if (ctx->is_next_optional) {
                         ctx->is_next_optional = false;
+                        absent = true;
                         uint8_t val = 0;
                         SYNC_IP();
                         if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
-- 
2.43.0


From 5d09ef89d71933470bd1413f3f969319b67c4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 12/34] fix: optional strings may be missing, and a string
 longer than its maximum is rejected

---
 src/vm/vm_exec.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c0b1e2b..c7e3ceb 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -427,6 +427,9 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
         break; \
     }
 
+// An absent optional string: empty, with a zero length in front for every prefix size
+static const char EMPTY_STRING[8] = {0};
+
 #define HANDLE_STRING_PRE(size, ctype, READ_EXPR, WRITE_EXPR) \
     { \
         uint16_t key = FETCH_IL_U16(ctx); \
@@ -446,10 +449,16 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (ctype)len; \
             WRITE_EXPR; \
-            memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
+            if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
+            if (ctx->cursor + (size) > ctx->data_len) { \
+                if (!ctx->is_next_optional) return CND_ERR_OOB; \
+                ctx->is_next_optional = false; \
+                SYNC_IP(); \
+                if (ctx->io_callback(ctx, key, opcode, (void*)(EMPTY_STRING + 4)) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                break; \
+            } \
             ctype len_val = (READ_EXPR); \
             if (ctx->cursor + (size) + len_val > ctx->data_len) return CND_ERR_OOB; \
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
@@ -1148,11 +1157,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
                     
-                    memcpy(ctx->data_buffer + ctx->cursor, str, len);
+                    if (len > 0) memcpy(ctx->data_buffer + ctx->cursor, str, len);
                     ctx->cursor += len;
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
                 } else {
+                    if (ctx->is_next_optional && ctx->cursor >= ctx->data_len) {
+                        ctx->is_next_optional = false;
+                        SYNC_IP();
+                        if (ctx->io_callback(ctx, key, opcode, (void*)(EMPTY_STRING + 4)) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                        break;
+                    }
+
                     size_t start = ctx->cursor;
                     size_t len = 0;
                     
@@ -1171,6 +1187,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     }
 
                     if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    if (ctx->data_buffer[ctx->cursor] != 0x00) return CND_ERR_VALIDATION; // Longer than max_len
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From 23a8361604146c1e08b36e726ebb837b69f94060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:06 +0000
Subject: [PATCH 13/34] fix: @optional covers bit fields and prefixed arrays
 and never reaches a later field

---
 src/vm/vm_exec.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c7e3ceb..bee6093 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -353,6 +353,7 @@ static bool skip_loop_body(cnd_vm_ctx* ctx) {
         // The arrays in the cases of a switch are balanced: continue behind its jump table
         ctx->ip = in.table_end ? in.table_end : ctx->ip + in.size;
     }
+    ctx->is_next_optional = false;
     return true;
 }
 
@@ -390,6 +391,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
         }
         
         ctx->cursor += count;
+        ctx->is_next_optional = false;
         ctx->ip += 4; // Skip OP_IO_U8(1) + KEY(2) + OP_ARR_END(1)
         return true;
     }
@@ -409,12 +411,16 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             WRITE_EXPR; \
             ctx->cursor += (size); \
         } else { \
-            if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
-            count = (READ_EXPR); \
-            ctx->cursor += (size); \
+            if (ctx->cursor + (size) <= ctx->data_len) { \
+                count = (READ_EXPR); \
+                ctx->cursor += (size); \
+            } else if (!ctx->is_next_optional) { \
+                return CND_ERR_OOB; \
+            } \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, &count) != CND_ERR_OK) return CND_ERR_CALLBACK; \
         } \
+        ctx->is_next_optional = false; \
         if (count > 0) { \
             SYNC_IP(); \
             if (try_optimize_byte_array(ctx, (uint32_t)count)) { RELOAD_PC(); break; } \
@@ -771,6 +777,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             absent = false;
         }
 
+        // Fields that cannot be missing
+        if (opcode == OP_CONST_CHECK || opcode == OP_CONST_WRITE || opcode == OP_CRC_16 || opcode == OP_CRC_32 ||
+            opcode == OP_EMIT || opcode == OP_RAW_BYTES) ctx->is_next_optional = false;
+
         switch (opcode) {
             case OP_NOOP: break;
             case OP_SET_ENDIAN_LE: ctx->endianness = CND_LE; break;
@@ -1057,7 +1067,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(b==0 || b>64) return CND_ERR_INVALID_OP; if(!has_bits(ctx,b)) return CND_ERR_OOB; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(b==0 || b>64) return CND_ERR_INVALID_OP; if(!has_bits(ctx,b)) { if(!ctx->is_next_optional) return CND_ERR_OOB; ctx->is_next_optional=false; SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; break; } ctx->is_next_optional=false; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1091,7 +1101,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
                 if(b==0 || b>64) return CND_ERR_INVALID_OP;
-                if(!has_bits(ctx,b)) return CND_ERR_OOB;
+                if(!has_bits(ctx,b)) {
+                    if(!ctx->is_next_optional) return CND_ERR_OOB;
+                    ctx->is_next_optional = false;
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
+                    break;
+                }
+                ctx->is_next_optional = false;
                 if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
@@ -1107,7 +1124,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
-                if (!has_bits(ctx, 1)) return CND_ERR_OOB;
+                if (!has_bits(ctx, 1)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    ctx->is_next_optional = false;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                    break;
+                }
+                ctx->is_next_optional = false;
                 if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
-- 
2.43.0


From 28668ea54d8d282102c86bb2f204bc3c17019221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 14/34] fix: computed fields are compared as they are written
 (negative values, NaN)

---
 src/vm/vm_exec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index bee6093..ad387ca 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1642,15 +1642,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         float f_bin; memcpy(&f_bin, &bin_val, 4);
                         
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        uint32_t f_bits; memcpy(&f_bits, &f_val, 4);
+                        if (f_bits != (uint32_t)bin_val && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        if (val != bin_val && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
-                        if (bin_val != val) return CND_ERR_VALIDATION;
+                        // The wire holds the low bytes of the value
+                        if (bin_val != (val & (UINT64_MAX >> (64 - 8 * size)))) return CND_ERR_VALIDATION;
                     }
                     
                     ctx->cursor += size;
-- 
2.43.0


From 3c5c26a5387977f2695bbacbe5891f3c288281e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 15/34] fix: a computed field after bit fields starts at the
 next byte

---
 src/vm/vm_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index ad387ca..6716647 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -588,8 +588,8 @@ static const bool ALIGN_TABLE[256] = {
     0, // 0x4A MARK_OPTIONAL
     1, // 0x4B ENUM_CHECK
     1, 1, 1, 1, // 0x4C - 0x4F
-    // 0x50 - 0xFF (Control Flow & Others) - No alignment
-    0 // ... rest 0
+    // 0x50 - 0xFF (Control Flow & Others) - No alignment, except for writing a computed field
+    [OP_EMIT] = 1
 };
 
 // --- Public API ---
-- 
2.43.0


From fdd265ea13d057f59ad8455bc0f92712b32ecdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 16/34] fix: renaming keys of structs and dropping unused names
 follows every instruction's real layout

---
 src/compiler/cnd_internal.h |   4 +
 src/compiler/cnd_utils.c    | 239 +++++++--------------------------
 src/compiler/cndc.c         | 256 ++++--------------------------------
 3 files changed, 76 insertions(+), 423 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 26d1a24..b4536ac 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -141,6 +141,10 @@ void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
+// Calls `visit` with every key ID in the instructions of bc[start, end) and stores what it returns
+typedef uint16_t (*KeyVisitor)(void* arg, uint16_t key);
+void il_visit_keys(uint8_t* bc, size_t len, size_t start, size_t end, KeyVisitor visit, void* arg);
+
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 0a69bb1..599dd1b 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_internal.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,207 +28,55 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
-    
-    switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
-            return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
-        case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
-        default:
-            return -1; // Unknown/variable - can't process
+void il_visit_keys(uint8_t* bc, size_t len, size_t start, size_t end, KeyVisitor visit, void* arg) {
+    size_t i = start;
+    while (i < end) {
+        il_instr in;
+        if (il_decode(bc, len, i, &in) != CND_ERR_OK) return;
+        for (int k = 0; k < in.key_count; k++) {
+            uint8_t* at = bc + i + in.key_off[k];
+            uint16_t key = visit(arg, (uint16_t)il_uint(at, 2));
+            at[0] = key & 0xFF;
+            at[1] = (key >> 8) & 0xFF;
+        }
+        if (in.table_end) {
+            // The cases of a switch lie between the instruction and its jump table
+            il_visit_keys(bc, len, i + in.size, in.table_start, visit, arg);
+            i = in.table_end;
+        } else {
+            i += in.size;
+        }
     }
 }
 
+typedef struct {
+    const char* prefix;
+    int prefix_len;
+    StringTable* strtab;
+} PrefixKeys;
+
+static uint16_t prefix_key(void* arg, uint16_t key) {
+    PrefixKeys* pk = (PrefixKeys*)arg;
+    const char* old_name = (key < pk->strtab->count) ? pk->strtab->strings[key] : "";
+    size_t old_len = strlen(old_name);
+    size_t new_len = (size_t)pk->prefix_len + 1 + old_len;
+
+    char* new_name = malloc(new_len + 1);
+    memcpy(new_name, pk->prefix, pk->prefix_len);
+    new_name[pk->prefix_len] = '.';
+    memcpy(new_name + pk->prefix_len + 1, old_name, old_len + 1);
+    uint16_t new_key = strtab_add(pk->strtab, new_name, (int)new_len);
+    free(new_name);
+    return new_key;
+}
+
 // Append struct bytecode with key IDs remapped to include prefix
 void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
                             const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
-        
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
-        }
-        
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
-        } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
-            }
-        }
-        
-        i += instr_size;
-    }
+    size_t start = b->size;
+    buf_append(b, src, len);
+    PrefixKeys pk = { prefix, prefix_len, strtab };
+    il_visit_keys(b->data + start, len, 0, len, prefix_key, &pk);
 }
 
 // --- Buffer Implementation ---
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..f6c7302 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -3,255 +3,51 @@
 #include <string.h>
 #include "cnd_internal.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
-    }
+typedef struct {
+    size_t count;
+    uint8_t* used;
+    uint16_t* ids; // New ID of each used string
+} KeyMap;
+
+static uint16_t mark_key(void* arg, uint16_t key) {
+    KeyMap* map = (KeyMap*)arg;
+    if (key < map->count) map->used[key] = 1;
+    return key;
+}
+
+static uint16_t map_key(void* arg, uint16_t key) {
+    KeyMap* map = (KeyMap*)arg;
+    return key < map->count ? map->ids[key] : key;
 }
 
+// Drops the strings that no instruction refers to
 static void optimize_strings(Parser* p) {
     if (p->strtab.count == 0) return;
 
-    // 1. Mark used strings
-    uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
     uint8_t* bc = p->global_bc.data;
     size_t len = p->global_bc.size;
+    KeyMap map = { p->strtab.count, calloc(p->strtab.count, 1), calloc(p->strtab.count, sizeof(uint16_t)) };
 
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
-
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    // 1. Mark used strings
+    il_visit_keys(bc, len, 0, len, mark_key, &map);
 
     // 2. Build new string table and map
-    uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
     StringTable new_tab;
     strtab_init(&new_tab);
 
     for (size_t i = 0; i < p->strtab.count; i++) {
-        if (used[i]) {
-            uint16_t new_id = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
-            map[i] = new_id;
-        } else {
-            map[i] = 0; // Should not be used
-        }
+        if (map.used[i]) map.ids[i] = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
     }
 
     // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
-
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
-    }
+    il_visit_keys(bc, len, 0, len, map_key, &map);
 
     // Replace string table
-    for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
-    free(p->strtab.strings);
+    strtab_free(&p->strtab);
     p->strtab = new_tab;
 
-    free(used);
-    free(map);
+    free(map.used);
+    free(map.ids);
 }
 
 // Implementation of cnd_compile_file using the new modular structure
@@ -293,6 +89,9 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     
     int ret = 0;
 
+    // Key IDs have 16 bits and 0xFFFF means "no such key"
+    if (p.strtab.count > 0xFFFF) parser_error(&p, "Too many names");
+
     if (p.had_error) {
         ret = 1;
     } else {
@@ -341,6 +140,7 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
         for(size_t i=0; i<p.registry.count; i++) {
             free(p.registry.defs[i].name);
             buf_free(&p.registry.defs[i].bytecode);
+            free(p.registry.defs[i].endian_restores);
             if(p.registry.defs[i].file) free(p.registry.defs[i].file);
             if(p.registry.defs[i].doc_comment) free(p.registry.defs[i].doc_comment);
         }
-- 
2.43.0


From e67d3f649c1b34860bf2c8615b474f10520aeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 17/34] fix: expressions parse unary operators, parentheses,
 subtraction and hex literals correctly

---
 src/compiler/cnd_parser.c | 33 ++++++++++++++++++++++-----------
 src/vm/vm_exec.c          |  8 ++++++++
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8289d13..491ef7f 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -41,6 +41,8 @@ static ExprType parse_grouping(Parser* p);
 ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
+    const char* digits = (t.length > 0 && t.start[0] == '-') ? t.start + 1 : t.start;
+    if (digits[0] == '0' && (digits[1] == 'x' || digits[1] == 'X')) return 0; // E is a hex digit
     for (int i = 0; i < t.length; i++) {
         if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
     }
@@ -48,12 +50,13 @@ static int is_float_literal(Token t) {
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type;
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
-        case TOK_TILDE: buf_push(p->target, OP_BIT_NOT); return TYPE_INT;
+        case TOK_TILDE:
+            if (t == TYPE_FLOAT) parser_error(p, "Operator needs integer operands");
+            buf_push(p->target, OP_BIT_NOT); return TYPE_INT;
         case TOK_MINUS: 
             if (t == TYPE_FLOAT) { buf_push(p->target, OP_FNEG); return TYPE_FLOAT; }
             else { buf_push(p->target, OP_NEG); return TYPE_INT; }
@@ -67,7 +70,11 @@ static ExprType parse_binary(Parser* p, ExprType left) {
     ExprType right = parse_precedence(p, (Precedence)(rule->precedence + 1));
     
     int is_float_op = 0;
-    if (left == TYPE_FLOAT || right == TYPE_FLOAT) {
+    if (op == TOK_PIPE || op == TOK_CARET || op == TOK_AMP || op == TOK_LSHIFT || op == TOK_RSHIFT || op == TOK_PERCENT) {
+        if (left == TYPE_FLOAT || right == TYPE_FLOAT) parser_error(p, "Operator needs integer operands");
+    } else if (op == TOK_PIPE_PIPE || op == TOK_AMP_AMP) {
+        // Each operand is tested by itself
+    } else if (left == TYPE_FLOAT || right == TYPE_FLOAT) {
         is_float_op = 1;
         if (left == TYPE_INT) {
             buf_push(p->target, OP_SWAP); buf_push(p->target, OP_ITOF); buf_push(p->target, OP_SWAP);
@@ -123,13 +130,12 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
     ExprType t = parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
 
-static ParseRule rules[] = {
+static ParseRule rules[TOK_ERROR + 1] = {
     [TOK_LPAREN]    = {parse_grouping, NULL, PREC_NONE},
     [TOK_MINUS]     = {parse_unary, parse_binary, PREC_TERM},
     [TOK_PLUS]      = {NULL, parse_binary, PREC_TERM},
@@ -176,7 +182,14 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
 
     ExprType left = prefix_rule(p);
 
-    while (prec <= get_rule(p->current.type)->precedence) {
+    for (;;) {
+        if (p->current.type == TOK_NUMBER && p->current.start[0] == '-') {
+            // After an operand "-1" is a subtraction, not a negative number
+            p->current.type = TOK_MINUS;
+            p->current.length = 1;
+            p->lexer.current = p->current.start + 1;
+        }
+        if (prec > get_rule(p->current.type)->precedence) break;
         advance(p);
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
@@ -423,15 +436,13 @@ ExprType parse_primary(Parser* p) {
             return TYPE_FLOAT;
         } else if (match_keyword(name, "float")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force ITOF
+            if (parse_expression(p) != TYPE_FLOAT) buf_push(p->target, OP_ITOF);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_ITOF);
             return TYPE_FLOAT;
         } else if (match_keyword(name, "int")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force FTOI
+            if (parse_expression(p) != TYPE_INT) buf_push(p->target, OP_FTOI);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_FTOI);
             return TYPE_INT;
         } else {
             // Handle Dot Notation (e.g. position.x)
diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 6716647..bbbeaf6 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1531,6 +1531,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_DUP: {
                 if (ctx->expr_sp == 0) return CND_ERR_STACK_UNDERFLOW;
                 uint64_t val = ctx->expr_stack[ctx->expr_sp - 1];
-- 
2.43.0


From e2e3f73776b6108520cfb183dde273b263bb00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 18/34] fix: scaled values are rounded to the nearest raw value
 when encoding

---
 src/vm/vm_exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index bbbeaf6..c565c6f 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -112,8 +112,10 @@ static inline int64_t vm_math_to_i64(double d) {
     return (int64_t)d;
 }
 
-// Converts an engineering value to a raw field of `size` bytes, saturating at its limits (NaN becomes 0)
+// Converts an engineering value to the nearest raw value of a field of `size` bytes, saturating at its
+// limits (NaN becomes 0). Rounding makes decoding and encoding inverse: 29 * 0.01 / 0.01 is below 29.
 static inline uint64_t vm_math_to_raw(double d, int size, bool is_signed) {
+    d = round(d);
     if (is_signed) {
         int64_t max = (int64_t)(UINT64_MAX >> (65 - 8 * size));
         int64_t v = vm_math_to_i64(d);
-- 
2.43.0


From 42da1d06a2fd21044715ed29677fa33cae5d15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 19/34] fix: the polynomial inverse converges for small
 coefficients and a zero slope at zero

---
 src/vm/vm_exec.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c565c6f..25acd26 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -32,7 +32,7 @@ static inline double vm_math_poly_eval(cnd_vm_ctx* ctx, double x) {
 
 static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
     double x = 0;
-    for(int iter=0; iter<20; iter++) {
+    for(int iter=0; iter<64; iter++) {
         double y = 0;
         double dy = 0;
         if (ctx->trans_poly_count > 0) {
@@ -48,9 +48,11 @@ static inline double vm_math_poly_solve(cnd_vm_ctx* ctx, double target_y) {
             }
         }
         double diff = y - target_y;
-        if (diff > -0.001 && diff < 0.001) break;
-        if (dy == 0) break;
-        x = x - diff / dy;
+        if (diff == 0) break;
+        if (dy == 0) { x += 1; continue; } // No slope here (e.g. x*x at 0): try next to it
+        double step = diff / dy;
+        x = x - step;
+        if (step > -1e-9 && step < 1e-9) break;
     }
     return x;
 }
-- 
2.43.0


From b0affde171b6cab0f4f9e0fb14ae4b18f0a90936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 20/34] fix: numbers in schemas that do not fit their place are
 rejected instead of wrapping

---
 src/compiler/cnd_internal.h |   4 +-
 src/compiler/cnd_lexer.c    |   1 +
 src/compiler/cnd_parser.c   | 241 +++++++++++++++++-------------------
 src/compiler/cnd_utils.c    |  72 ++++-------
 4 files changed, 146 insertions(+), 172 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index b4536ac..55fc2d6 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -107,8 +107,8 @@ Token lexer_next(Lexer* lexer);
 
 // --- Utils: Number Parsing ---
 int hex_char_to_int(char c);
-uint32_t parse_number_u32(const char* start, int length);
-int64_t parse_number_i64(const char* start, int length);
+// Reads an integer literal; 0 if it is not an integer or does not fit in 64 bits
+int parse_int_literal(const char* start, int length, int* negative, uint64_t* magnitude);
 double parse_number_double(const char* start, int length);
 
 // --- Utils: Buffer ---
diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index 0b15e2f..0aa3181 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -164,6 +164,7 @@ Token lexer_next(Lexer* lexer) {
             }
             
             if (is_hex) {
+                if (!is_hex_c(*lexer->current)) token.type = TOK_ERROR; // No digits after 0x
                 while (is_hex_c(*lexer->current)) lexer->current++;
             } else {
                 // Decimal part
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 491ef7f..e5269e2 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -292,70 +292,90 @@ int match_keyword(Token t, const char* kw) {
 
 
 
-void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
-    // Validate range
-    if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
-        uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
-        uint32_t max = parse_number_u32(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_I8 || type_op == OP_IO_I16 || type_op == OP_IO_I32 || type_op == OP_IO_I64) {
-        int64_t min = parse_number_i64(min_tok.start, min_tok.length);
-        int64_t max = parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_U64) {
-        uint64_t min = (uint64_t)parse_number_i64(min_tok.start, min_tok.length);
-        uint64_t max = (uint64_t)parse_number_i64(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
-    } else if (type_op == OP_IO_F32 || type_op == OP_IO_F64) {
-        double min = parse_number_double(min_tok.start, min_tok.length);
-        double max = parse_number_double(max_tok.start, max_tok.length);
-        if (min > max) { parser_error(p, "Range min > max"); return; }
+// The value of an integer operand between min and max (two's complement)
+static uint64_t int_operand(Parser* p, Token t, int64_t min, uint64_t max) {
+    int negative;
+    uint64_t magnitude;
+    if (t.type != TOK_NUMBER) return 0; // Already reported
+    if (!parse_int_literal(t.start, t.length, &negative, &magnitude)) {
+        parser_error(p, "Expect an integer of at most 64 bits");
+        return 0;
+    }
+    if (negative ? magnitude > 0 - (uint64_t)min : magnitude > max) {
+        parser_error(p, "Number out of range");
+        return 0;
     }
+    return negative ? 0 - magnitude : magnitude;
+}
 
-    buf_push(p->target, OP_RANGE_CHECK);
-    buf_push(p->target, type_op);
-    
-    if (type_op == OP_IO_U8) {
-        buf_push(p->target, (uint8_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U16) {
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_U32) {
-        buf_push_u32(p->target, parse_number_u32(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, parse_number_u32(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I8) {
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push(p->target, (uint8_t)(int8_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I16) {
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u16(p->target, (uint16_t)(int16_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I32) {
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u32(p->target, (uint32_t)(int32_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_F32) {
+// The value of an integer operand of a wire type
+static uint64_t typed_operand(Parser* p, Token t, uint8_t type_op) {
+    switch (type_op) {
+        case OP_IO_U8: return int_operand(p, t, 0, UINT8_MAX);
+        case OP_IO_U16: return int_operand(p, t, 0, UINT16_MAX);
+        case OP_IO_U32: return int_operand(p, t, 0, UINT32_MAX);
+        case OP_IO_U64: return int_operand(p, t, 0, UINT64_MAX);
+        case OP_IO_I8: return int_operand(p, t, INT8_MIN, INT8_MAX);
+        case OP_IO_I16: return int_operand(p, t, INT16_MIN, INT16_MAX);
+        case OP_IO_I32: return int_operand(p, t, INT32_MIN, INT32_MAX);
+        default: return int_operand(p, t, INT64_MIN, INT64_MAX);
+    }
+}
+
+// The largest value of an integer wire type (two's complement)
+static int64_t type_max(uint8_t type_op) {
+    switch (type_op) {
+        case OP_IO_U8: return UINT8_MAX;
+        case OP_IO_U16: return UINT16_MAX;
+        case OP_IO_U32: return UINT32_MAX;
+        case OP_IO_U64: return (int64_t)UINT64_MAX;
+        case OP_IO_I8: return INT8_MAX;
+        case OP_IO_I16: return INT16_MAX;
+        case OP_IO_I32: return INT32_MAX;
+        default: return INT64_MAX;
+    }
+}
+
+static void emit_typed(Parser* p, uint8_t type_op, uint64_t val) {
+    switch (type_op) {
+        case OP_IO_U8: case OP_IO_I8: buf_push(p->target, (uint8_t)val); break;
+        case OP_IO_U16: case OP_IO_I16: buf_push_u16(p->target, (uint16_t)val); break;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: buf_push_u32(p->target, (uint32_t)val); break;
+        default: buf_push_u64(p->target, val); break;
+    }
+}
+
+void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
+    uint64_t min_bits = 0, max_bits = 0;
+    int empty;
+    if (type_op == OP_IO_BOOL) {
+        parser_error(p, "Range check not supported for bool");
+        return;
+    }
+    if (type_op == OP_IO_F32) {
         float fmin = (float)parse_number_double(min_tok.start, min_tok.length);
         float fmax = (float)parse_number_double(max_tok.start, max_tok.length);
-        uint32_t imin, imax;
-        memcpy(&imin, &fmin, 4);
-        memcpy(&imax, &fmax, 4);
-        buf_push_u32(p->target, imin);
-        buf_push_u32(p->target, imax);
-    } else if (type_op == OP_IO_U64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
-    } else if (type_op == OP_IO_I64) {
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(min_tok.start, min_tok.length));
-        buf_push_u64(p->target, (uint64_t)parse_number_i64(max_tok.start, max_tok.length));
+        memcpy(&min_bits, &fmin, sizeof(fmin));
+        memcpy(&max_bits, &fmax, sizeof(fmax));
+        empty = fmin > fmax;
     } else if (type_op == OP_IO_F64) {
         double dmin = parse_number_double(min_tok.start, min_tok.length);
         double dmax = parse_number_double(max_tok.start, max_tok.length);
-        uint64_t imin, imax;
-        memcpy(&imin, &dmin, 8);
-        memcpy(&imax, &dmax, 8);
-        buf_push_u64(p->target, imin);
-        buf_push_u64(p->target, imax);
+        memcpy(&min_bits, &dmin, sizeof(dmin));
+        memcpy(&max_bits, &dmax, sizeof(dmax));
+        empty = dmin > dmax;
+    } else {
+        int is_signed = type_op == OP_IO_I8 || type_op == OP_IO_I16 || type_op == OP_IO_I32 || type_op == OP_IO_I64;
+        min_bits = typed_operand(p, min_tok, type_op);
+        max_bits = typed_operand(p, max_tok, type_op);
+        empty = is_signed ? (int64_t)min_bits > (int64_t)max_bits : min_bits > max_bits;
     }
+    if (empty) { parser_error(p, "Range min > max"); return; }
+
+    buf_push(p->target, OP_RANGE_CHECK);
+    buf_push(p->target, type_op);
+    emit_typed(p, type_op, min_bits);
+    emit_typed(p, type_op, max_bits);
 }
 
 void parse_field(Parser* p, const char* doc); // Forward declaration
@@ -371,7 +391,7 @@ ExprType parse_primary(Parser* p) {
             buf_push_u64(p->target, bits);
             return TYPE_FLOAT;
         } else {
-            uint64_t val = (uint64_t)parse_number_i64(p->previous.start, p->previous.length);
+            uint64_t val = int_operand(p, p->previous, INT64_MIN, UINT64_MAX);
             buf_push(p->target, OP_PUSH_IMM);
             buf_push_u64(p->target, val);
             return TYPE_INT;
@@ -553,7 +573,7 @@ void parse_switch(Parser* p) {
             
             uint64_t val = 0;
             if (p->current.type == TOK_NUMBER) {
-                val = (uint64_t)parse_number_i64(p->current.start, p->current.length);
+                val = int_operand(p, p->current, INT64_MIN, UINT64_MAX);
                 advance(p);
             } else if (p->current.type == TOK_IDENTIFIER) {
                 // Enum.Value syntax
@@ -779,7 +799,7 @@ void parse_field(Parser* p, const char* doc) {
     // Decorator State Variables
     uint32_t array_fixed_count = 0;
     int has_fixed_array_count = 0;
-    uint64_t const_val = 0;
+    Token const_tok = {0};
     int has_const = 0;
     int endian_override = -1; // -1: none, 0: little, 1: big
     int is_standalone_op = 0;
@@ -834,10 +854,7 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
-                    parser_error(p, "Fill bit must be 0 or 1");
-                }
+                fill_val = (uint8_t)int_operand(p, num, 0, 1);
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -870,17 +887,17 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
-                    array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+                    array_fixed_count = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
             } else if (match_keyword(dec_name_token, "const") || match_keyword(dec_name_token, "match")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
-                const_val = (uint64_t)parse_number_i64(num.start, num.length); has_const = 1;
+                const_tok = p->current; consume(p, TOK_NUMBER, "Expect const/match value");
+                has_const = 1;
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
+                uint32_t pad_bits = (uint32_t)int_operand(p, num, 0, UINT8_MAX); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
                 }
@@ -891,15 +908,16 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
+                crc_width = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_crc = 1;
                 if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
                 else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
+                else parser_error(p, "CRC width must be 16 or 32");
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_operand(p, num, 0, crc_width == 16 ? UINT16_MAX : UINT32_MAX);
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_operand(p, num, 0, crc_width == 16 ? UINT16_MAX : UINT32_MAX);
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_operand(p, num, 0, crc_width == 16 ? UINT16_MAX : UINT32_MAX);
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
@@ -908,16 +926,16 @@ void parse_field(Parser* p, const char* doc) {
                 if (trans_type != CND_TRANS_SCALE_F64) { trans_type = CND_TRANS_SCALE_F64; trans_scale = 1.0; } trans_offset = parse_number_double(num.start, num.length);
             } else if (match_keyword(dec_name_token, "mul")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect mul value");
-                trans_type = CND_TRANS_MUL_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_MUL_I64; trans_int_val = (int64_t)int_operand(p, num, INT64_MIN, INT64_MAX);
             } else if (match_keyword(dec_name_token, "div")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect div value");
-                trans_type = CND_TRANS_DIV_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_DIV_I64; trans_int_val = (int64_t)int_operand(p, num, INT64_MIN, INT64_MAX);
             } else if (match_keyword(dec_name_token, "add")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect add value");
-                trans_type = CND_TRANS_ADD_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_ADD_I64; trans_int_val = (int64_t)int_operand(p, num, INT64_MIN, INT64_MAX);
             } else if (match_keyword(dec_name_token, "sub")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect sub value");
-                trans_type = CND_TRANS_SUB_I64; trans_int_val = parse_number_i64(num.start, num.length);
+                trans_type = CND_TRANS_SUB_I64; trans_int_val = (int64_t)int_operand(p, num, INT64_MIN, INT64_MAX);
             } else if (match_keyword(dec_name_token, "poly")) {
                 trans_type = CND_TRANS_POLY;
                 while (true) {
@@ -1033,7 +1051,8 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        bit_width = (uint8_t)int_operand(p, p->previous, 0, match_keyword(type_tok, "bool") ? 1 : 64);
+        if (bit_width == 0) parser_error(p, "Bit width must be at least 1");
     }
 
     int is_array_field = 0; 
@@ -1048,7 +1067,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+            array_fixed_count = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1079,8 +1098,8 @@ void parse_field(Parser* p, const char* doc) {
             else parser_error(p, "Invalid prefix type for string");
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
-        if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "until")) { advance(p); Token until_tok = p->current; consume(p, TOK_NUMBER, "Expect val"); int_operand(p, until_tok, 0, 0); has_until = 1; }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)int_operand(p, max_tok, 0, UINT16_MAX); }
     }
 
     if (is_array_field && match_keyword(type_tok, "string")) {
@@ -1117,62 +1136,33 @@ void parse_field(Parser* p, const char* doc) {
 
     if (has_const) {
         uint8_t type_op = OP_IO_U16;
-        int is_signed = 0;
-        int width = 0; // 1, 2, 4, 8
         int found = 0;
 
-        #define CHECK_TYPE(t1, t2, t3, op, w, s) \
+        #define CHECK_TYPE(t1, t2, t3, op) \
             if (!found && (match_keyword(type_tok, t1) || (t2 && match_keyword(type_tok, t2)) || (t3 && match_keyword(type_tok, t3)))) { \
-                type_op = op; width = w; is_signed = s; found = 1; \
+                type_op = op; found = 1; \
             }
 
-        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8, 1, 0)
-        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8, 1, 1)
-        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16, 2, 0)
-        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16, 2, 1)
-        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32, 4, 0)
-        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32, 4, 1)
-        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64, 8, 0)
-        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64, 8, 1)
+        CHECK_TYPE("uint8", "byte", "u8", OP_IO_U8)
+        CHECK_TYPE("int8", "i8", NULL, OP_IO_I8)
+        CHECK_TYPE("uint16", "u16", NULL, OP_IO_U16)
+        CHECK_TYPE("int16", "i16", NULL, OP_IO_I16)
+        CHECK_TYPE("uint32", "u32", NULL, OP_IO_U32)
+        CHECK_TYPE("int32", "i32", NULL, OP_IO_I32)
+        CHECK_TYPE("uint64", "u64", NULL, OP_IO_U64)
+        CHECK_TYPE("int64", "i64", NULL, OP_IO_I64)
 
         if (!found) {
              parser_error(p, "Const not supported for this type");
         }
         #undef CHECK_TYPE
 
-        // Validation
-        if (is_signed) {
-            int64_t val_i64 = (int64_t)const_val;
-            int64_t min = 0, max = 0;
-            if (width == 1) { min = -128; max = 127; }
-            else if (width == 2) { min = -32768; max = 32767; }
-            else if (width == 4) { min = -2147483648LL; max = 2147483647LL; }
-            else { min = INT64_MIN; max = INT64_MAX; }
-            
-            if (val_i64 < min || val_i64 > max) {
-                parser_error(p, "Const value out of range for signed type");
-            }
-        } else {
-            uint64_t val_u64 = const_val;
-            uint64_t max = 0;
-            if (width == 1) max = 255;
-            else if (width == 2) max = 65535;
-            else if (width == 4) max = 4294967295ULL;
-            else max = UINT64_MAX;
-            
-            if (val_u64 > max) {
-                parser_error(p, "Const value out of range for unsigned type");
-            }
-        }
-        
+        uint64_t const_val = typed_operand(p, const_tok, type_op);
+
         buf_push(p->target, OP_CONST_CHECK); 
         buf_push_u16(p->target, key_id);
         buf_push(p->target, type_op);
-        
-        if (type_op == OP_IO_U8 || type_op == OP_IO_I8) buf_push(p->target, (uint8_t)const_val);
-        else if (type_op == OP_IO_U16 || type_op == OP_IO_I16) buf_push_u16(p->target, (uint16_t)const_val);
-        else if (type_op == OP_IO_U32 || type_op == OP_IO_I32) buf_push_u32(p->target, (uint32_t)const_val);
-        else if (type_op == OP_IO_U64 || type_op == OP_IO_I64) buf_push_u64(p->target, const_val);
+        emit_typed(p, type_op, const_val);
         
         if (has_range) { emit_range_check(p, type_op, range_min_tok, range_max_tok); }
     } else {
@@ -1413,12 +1403,15 @@ void parse_enum(Parser* p, const char* doc) {
             parser_error(p, "Duplicate enum value name");
         }
 
+        if (def->count == UINT16_MAX) { parser_error(p, "Too many enum values"); break; }
         int64_t val = next_val;
         if (p->current.type == TOK_EQUALS) {
             advance(p);
             Token num = p->current;
             consume(p, TOK_NUMBER, "Expect enum value");
-            val = parse_number_i64(num.start, num.length);
+            val = (int64_t)typed_operand(p, num, def->underlying_type);
+        } else if (def->count > 0 && def->values[def->count - 1].value == type_max(def->underlying_type)) {
+            parser_error(p, "Enum value out of range");
         }
         
         // Check for duplicate value
@@ -1441,7 +1434,7 @@ void parse_enum(Parser* p, const char* doc) {
         sb_reset(&val_doc_sb); // Reset for next
         def->count++;
         
-        next_val = val + 1;
+        next_val = (int64_t)((uint64_t)val + 1);
         
         if (p->current.type == TOK_COMMA) advance(p);
     }
@@ -1683,7 +1676,7 @@ void parse_top_level(Parser* p) {
             
             if (match_keyword(dec, "version")) {
                 consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
-                uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
+                uint32_t v = (uint32_t)int_operand(p, ver, 0, UINT8_MAX); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 599dd1b..544ced1 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -301,60 +301,40 @@ int hex_char_to_int(char c) {
     return 0;
 }
 
-uint32_t parse_number_u32(const char* start, int length) {
-    uint32_t res = 0;
-    // Handle hex
-    if (length > 2 && start[0] == '0' && (start[1] == 'x' || start[1] == 'X')) {
-        for (int i = 2; i < length; i++) {
-            res = (res << 4) | hex_char_to_int(start[i]);
-        }
-    } else {
-        for (int i = 0; i < length; i++) {
-            if (start[i] >= '0' && start[i] <= '9') {
-                res = res * 10 + (start[i] - '0');
-            }
-        }
-    }
-    return res;
-}
-
-int64_t parse_number_i64(const char* start, int length) {
+int parse_int_literal(const char* start, int length, int* negative, uint64_t* magnitude) {
     const char* s = start;
-    const char* end = s + length;
-    if (s == end) return 0;
-    
-    int neg = 0;
-    if (*s == '-') {
-        neg = 1;
-        s++;
-    } else if (*s == '+') {
-        s++;
-    }
-    
+    const char* end = start + length;
     uint64_t res = 0;
-    if (end - s > 2 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) {
-        s += 2;
-        while (s < end) {
-            res = (res << 4) | hex_char_to_int(*s++);
-        }
-    } else {
-        while (s < end) {
-            char c = *s++;
-            if (c >= '0' && c <= '9') {
-                res = res * 10 + (c - '0');
-            }
-        }
+    uint64_t base = 10;
+
+    *negative = 0;
+    if (s < end && *s == '-') { *negative = 1; s++; }
+    if (end - s > 1 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s += 2; }
+    if (s == end) return 0;
+    for (; s < end; s++) {
+        uint64_t digit;
+        if (*s >= '0' && *s <= '9') digit = (uint64_t)(*s - '0');
+        else if (base == 16 && ((*s >= 'a' && *s <= 'f') || (*s >= 'A' && *s <= 'F'))) digit = (uint64_t)hex_char_to_int(*s);
+        else return 0;
+        if (res > (UINT64_MAX - digit) / base) return 0;
+        res = res * base + digit;
     }
-    
-    return neg ? -(int64_t)res : (int64_t)res;
+    *magnitude = res;
+    return 1;
 }
 
 double parse_number_double(const char* start, int length) {
-    char buf[64];
-    if (length >= 63) return 0.0;
+    char small[64];
+    char* buf = small;
+    if (length >= (int)sizeof(small)) {
+        buf = malloc((size_t)length + 1);
+        if (!buf) return 0.0;
+    }
     memcpy(buf, start, length);
     buf[length] = '\0';
-    return strtod(buf, NULL);
+    double value = strtod(buf, NULL);
+    if (buf != small) free(buf);
+    return value;
 }
 
 // --- StringBuilder Implementation ---
-- 
2.43.0


From a62fb25bcb511d2125086c4c5e7422646bec1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 21/34] fix: transforms apply to every array element, CRC
 parameters may come before @crc, switch labels are checked

---
 src/compiler/cnd_parser.c | 84 +++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index e5269e2..9669931 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -602,11 +602,14 @@ void parse_switch(Parser* p) {
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
                 }
+            } else {
+                parser_error(p, "Expect case value");
             }
             
             consume(p, TOK_COLON, "Expect : after case value");
             
             // Register Case
+            if (case_count == UINT16_MAX) { parser_error(p, "Too many cases"); break; }
             // Check for duplicates
             for(size_t i=0; i<case_count; i++) {
                 if (cases[i].val == val) {
@@ -642,6 +645,7 @@ void parse_switch(Parser* p) {
 
         } else if (p->current.type == TOK_DEFAULT) {
             advance(p); consume(p, TOK_COLON, "Expect :");
+            if (default_offset != -1) parser_error(p, "Duplicate default");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
             if (p->current.type == TOK_LBRACE) {
@@ -826,9 +830,11 @@ void parse_field(Parser* p, const char* doc) {
     uint32_t crc_init = 0;
     uint32_t crc_xor = 0;
     uint8_t crc_flags = 0;
+    int has_crc_poly = 0, has_crc_init = 0, has_crc_xor = 0;
 
     int has_expr = 0;
     int has_eof = 0;
+    int has_optional = 0;
     int has_count_ref = 0;
     uint16_t count_ref_id = 0;
 
@@ -869,7 +875,7 @@ void parse_field(Parser* p, const char* doc) {
         } else if (match_keyword(dec_name_token, "crc_refout")) {
             crc_flags |= 2;
         } else if (match_keyword(dec_name_token, "optional")) {
-            buf_push(p->target, OP_MARK_OPTIONAL);
+            has_optional = 1;
         } else if (match_keyword(dec_name_token, "eof")) {
             has_eof = 1;
         } else { 
@@ -909,15 +915,18 @@ void parse_field(Parser* p, const char* doc) {
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
                 crc_width = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_crc = 1;
-                if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
-                else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
-                else parser_error(p, "CRC width must be 16 or 32");
+                int is_16 = crc_width == 16;
+                if (!has_crc_poly) crc_poly = is_16 ? 0x1021 : 0x04C11DB7;
+                if (!has_crc_init) crc_init = is_16 ? 0xFFFF : 0xFFFFFFFF;
+                if (!has_crc_xor) crc_xor = is_16 ? 0 : 0xFFFFFFFF;
+                if (!is_16) crc_flags = 3;
+                if (!is_16 && crc_width != 32) parser_error(p, "CRC width must be 16 or 32");
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_operand(p, num, 0, crc_width == 16 ? UINT16_MAX : UINT32_MAX);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_crc_poly = 1;
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_operand(p, num, 0, crc_width == 16 ? UINT16_MAX : UINT32_MAX);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_crc_init = 1;
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_operand(p, num, 0, crc_width == 16 ? UINT16_MAX : UINT32_MAX);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = (uint32_t)int_operand(p, num, 0, UINT32_MAX); has_crc_xor = 1;
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
@@ -997,38 +1006,6 @@ void parse_field(Parser* p, const char* doc) {
         return;
     }
     
-    // Emit CRC
-    if (has_crc) {
-        // Do nothing here, wait until type is parsed
-    }
-    
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
-        }
-    }
-
     Token type_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect field type");
 
@@ -1118,6 +1095,9 @@ void parse_field(Parser* p, const char* doc) {
         p->endian_def = NULL;
     }
 
+    // An until-EOF array is always allowed to be empty
+    if (has_optional && !has_eof) { buf_push(p->target, OP_MARK_OPTIONAL); }
+
     if (arr_prefix_op != OP_NOOP) {
         buf_push(p->target, arr_prefix_op); buf_push_u16(p->target, key_id);
     } else if (has_eof && is_array_field) {
@@ -1308,6 +1288,32 @@ void parse_field(Parser* p, const char* doc) {
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
                 } else {
+                    // Inside an array the transform is part of the body, so it applies to every element
+                    if (trans_type == CND_TRANS_SCALE_F64) {
+                        buf_push(p->target, OP_SCALE_LIN);
+                        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
+                        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
+                    } else if (trans_type == CND_TRANS_MUL_I64) {
+                        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_DIV_I64) {
+                        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_ADD_I64) {
+                        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_SUB_I64) {
+                        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_POLY) {
+                        buf_push(p->target, OP_TRANS_POLY);
+                        buf_push(p->target, poly_count);
+                        for (int i = 0; i < poly_count; i++) {
+                            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
+                        }
+                    } else if (trans_type == CND_TRANS_SPLINE) {
+                        buf_push(p->target, OP_TRANS_SPLINE);
+                        buf_push(p->target, spline_count);
+                        for (int i = 0; i < spline_count * 2; i++) {
+                            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
+                        }
+                    }
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 }
-- 
2.43.0


From 69189a8e409648be0dec7c9e4f4cc24d7f499c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 22/34] fix: field combinations without a meaning are rejected
 instead of corrupting the program

---
 src/compiler/cnd_parser.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 9669931..9a572b2 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -788,6 +788,9 @@ void parse_field(Parser* p, const char* doc) {
         advance(p);
     }
     
+    // The number of bits used depends on the branch taken
+    if (p->current.type == TOK_SWITCH || p->current.type == TOK_IF) p->is_bit_count_valid = 0;
+
     if (p->current.type == TOK_SWITCH) {
         advance(p); // consume switch (was type_tok in previous logic, but here we check before)
         parse_switch(p);
@@ -1085,6 +1088,27 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    // Combinations that have no meaning
+    int is_bits = bit_width > 0 || p->in_bit_mode;
+    int is_struct = reg_find(&p->registry, type_tok.start, type_tok.length) != NULL;
+    int is_computed = has_const + has_crc + has_expr;
+    int is_plain = !is_struct && !enum_reg_find(&p->enums, type_tok.start, type_tok.length) && !match_keyword(type_tok, "string");
+    if (is_array_field && arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
+        parser_error(p, "Array needs a size, a prefix, @count or @eof");
+    }
+    if (!is_array_field && (has_eof || has_count_ref || has_fixed_array_count)) { parser_error(p, "Count and eof decorators need an array"); }
+    if (p->in_bit_mode && (!is_plain || is_array_field || is_computed)) { parser_error(p, "Only integer and bool types allowed in unaligned_bytes struct"); }
+    if (is_bits && (is_computed || has_range)) { parser_error(p, "Const, CRC, expr and range are not supported for bitfields"); }
+    if (is_computed > 1 || (is_computed && trans_type != CND_TRANS_NONE)) { parser_error(p, "A field has one of const, crc, expr or a transform"); }
+    if (has_expr && (!is_plain || is_array_field)) { parser_error(p, "Expr needs a single field of a basic type"); }
+    if (has_crc && (is_array_field || has_range)) { parser_error(p, "CRC needs a single field without a range"); }
+    if (!has_crc && (has_crc_poly || has_crc_init || has_crc_xor || crc_flags)) { parser_error(p, "CRC parameters need @crc"); }
+    if (crc_width == 16 && (crc_poly > UINT16_MAX || crc_init > UINT16_MAX || crc_xor > UINT16_MAX)) { parser_error(p, "Number out of range"); }
+    if (trans_type != CND_TRANS_NONE && (is_bits || match_keyword(type_tok, "bool"))) { parser_error(p, "Cannot apply scale/transform to bitfields or bool"); }
+    if (has_optional && (is_struct || is_computed || (is_array_field && arr_prefix_op == OP_NOOP && !has_eof))) {
+        parser_error(p, "Only fields with their own data may be optional");
+    }
+
     // A field override holds for this field only; the byte order around it is restored below
     int outer_be = p->big_endian;
     StructDef* outer_endian_def = p->endian_def;
@@ -1164,16 +1188,10 @@ void parse_field(Parser* p, const char* doc) {
 
             buf_push(p->target, OP_ENTER_STRUCT); buf_push_u16(p->target, key_id);
             
-            // Get the field name for prefixing nested fields
-            char field_name[256];
-            int field_name_len = name_tok.length < 255 ? name_tok.length : 255;
-            memcpy(field_name, name_tok.start, field_name_len);
-            field_name[field_name_len] = '\0';
-            
             // Append struct bytecode with field names prefixed
             size_t struct_base = buf_current_offset(p->target);
             buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+                                   name_tok.start, name_tok.length, &p->strtab);
             resolve_struct_endian(p, sdef, struct_base);
             
             buf_push(p->target, OP_EXIT_STRUCT);
@@ -1243,7 +1261,8 @@ void parse_field(Parser* p, const char* doc) {
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) buf_push(p->target, bit_width); // A bool is always one bit
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
@@ -1287,6 +1306,7 @@ void parse_field(Parser* p, const char* doc) {
                     buf_push(p->target, OP_DUP);
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
+                    if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 } else {
                     // Inside an array the transform is part of the body, so it applies to every element
                     if (trans_type == CND_TRANS_SCALE_F64) {
-- 
2.43.0


From 0c5495a5f3f5765976ab1af19041f25ee4794bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 23/34] fix: deeply nested schemas and unreadable sources are
 reported instead of crashing the compiler

---
 src/compiler/cnd_internal.h |  1 +
 src/compiler/cnd_parser.c   | 45 ++++++++++++++++++++++++++++---------
 src/compiler/cndc.c         | 11 ++++++++-
 3 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 55fc2d6..3024d74 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -249,6 +249,7 @@ typedef struct {
     int verbose;     // Flag for verbose debug output
     int packet_count; // Track number of packets defined
     int import_depth; // Track recursion depth of imports
+    int depth;        // Nesting depth of statements and expressions
     
     // Decorator State
     int pending_unaligned; // Flag: Next struct is @unaligned_bytes
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 9a572b2..a5136bf 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include <limits.h>
 
 // Precedence levels
 typedef enum {
@@ -172,11 +173,20 @@ ExprType parse_expression(Parser* p) {
     return parse_precedence(p, PREC_OR);
 }
 
+// Nested input is parsed recursively; the limit keeps the call stack bounded
+static int enter_nesting(Parser* p) {
+    if (p->depth >= 256) { parser_error(p, "Nesting too deep"); return 0; }
+    p->depth++;
+    return 1;
+}
+
 static ExprType parse_precedence(Parser* p, Precedence prec) {
+    if (p->had_error || !enter_nesting(p)) return TYPE_UNKNOWN;
     advance(p);
     ParsePrefixFn prefix_rule = get_rule(p->previous.type)->prefix;
     if (prefix_rule == NULL) {
         parser_error(p, "Expect expression");
+        p->depth--;
         return TYPE_UNKNOWN;
     }
 
@@ -194,6 +204,7 @@ static ExprType parse_precedence(Parser* p, Precedence prec) {
         ParseInfixFn infix_rule = get_rule(p->previous.type)->infix;
         left = infix_rule(p, left);
     }
+    p->depth--;
     return left;
 }
 
@@ -500,6 +511,7 @@ ExprType parse_primary(Parser* p) {
 }
 
 void parse_if(Parser* p) {
+    if (!enter_nesting(p)) return;
     consume(p, TOK_LPAREN, "Expect ( after if");
     parse_expression(p);
     consume(p, TOK_RPAREN, "Expect ) after if condition");
@@ -533,6 +545,7 @@ void parse_if(Parser* p) {
     size_t end_loc = buf_current_offset(p->target);
     int32_t end_offset = (int32_t)(end_loc - (jump_end_loc + 1 + 4));
     buf_write_u32_at(p->target, jump_end_loc + 1, (uint32_t)end_offset);
+    p->depth--;
 }
 
 typedef struct {
@@ -540,6 +553,15 @@ typedef struct {
     int32_t offset;
 } SwitchCase;
 
+static void parse_case_body(Parser* p) {
+    if (p->current.type == TOK_LBRACE) {
+        parse_block(p);
+    } else if (enter_nesting(p)) {
+        parse_field(p, NULL);
+        p->depth--;
+    }
+}
+
 void parse_switch(Parser* p) {
     consume(p, TOK_LPAREN, "Expect ( after switch");
     Token field_tok = p->current;
@@ -626,11 +648,7 @@ void parse_switch(Parser* p) {
             case_count++;
             
             // Parse body
-            if (p->current.type == TOK_LBRACE) {
-                parse_block(p);
-            } else {
-                parse_field(p, NULL);
-            }
+            parse_case_body(p);
             
             // Emit Jump to end (break)
             size_t jump_loc = buf_current_offset(p->target);
@@ -648,11 +666,7 @@ void parse_switch(Parser* p) {
             if (default_offset != -1) parser_error(p, "Duplicate default");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
-            if (p->current.type == TOK_LBRACE) {
-                parse_block(p);
-            } else {
-                parse_field(p, NULL);
-            }
+            parse_case_body(p);
             
             // Emit Jump to end (break)
             size_t jump_loc = buf_current_offset(p->target);
@@ -1349,6 +1363,7 @@ void parse_field(Parser* p, const char* doc) {
 }
 
 void parse_block(Parser* p) {
+    if (!enter_nesting(p)) return;
     consume(p, TOK_LBRACE, "Expect {");
     StringBuilder doc_sb;
     sb_init(&doc_sb);
@@ -1368,6 +1383,7 @@ void parse_block(Parser* p) {
     }
     consume(p, TOK_RBRACE, "Expect }");
     sb_free(&doc_sb);
+    p->depth--;
 }
 
 void parse_enum(Parser* p, const char* doc) {
@@ -1655,7 +1671,14 @@ void parse_import(Parser* p) {
     }
     
     fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
+    char* source = (size < 0 || size == LONG_MAX) ? NULL : (char*)malloc(size + 1);
+    if (!source) { // Not a regular file
+        fclose(f);
+        parser_error(p, "Could not read imported file");
+        free(full_path);
+        return;
+    }
+    source[fread(source, 1, size, f)] = '\0';
     fclose(f);
     
     // Save state
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index f6c7302..e6f7e8c 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include "cnd_internal.h"
 
 typedef struct {
@@ -64,7 +65,15 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
         return 1; 
     }
     fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
+    char* source = (size < 0 || size == LONG_MAX) ? NULL : malloc(size + 1);
+    if (!source) { // Not a regular file
+        if (json_output) printf("{\"error\": \"Error reading input file: %s\"}\n", open_path);
+        else printf("Error reading input file: %s\n", open_path);
+        fclose(f);
+        if (canonical_in_path) free(canonical_in_path);
+        return 1;
+    }
+    source[fread(source, 1, size, f)] = '\0';
     fclose(f);
 
     Parser p;
-- 
2.43.0


From 1c26c8c741020ff59c53e547155740bde4dfbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 24/34] fix: the table-driven CRC-32 reflects its initial value
 like the bitwise one

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 25acd26..97fc1b9 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -534,7 +534,7 @@ static const uint32_t crc32_table[256] = {
 static uint32_t calc_crc(const uint8_t* data, size_t len, uint32_t poly, uint32_t init, uint32_t xorout, uint8_t flags, int width) {
     // Fast path for Standard CRC32 (Poly 0x04C11DB7, RefIn=1, RefOut=1)
     if (width == 32 && poly == 0x04C11DB7 && (flags & 1) && (flags & 2)) {
-        uint32_t crc = init;
+        uint32_t crc = reflect(init, 32);
         for (size_t i = 0; i < len; i++) {
             crc = (crc >> 8) ^ crc32_table[(crc ^ data[i]) & 0xFF];
         }
-- 
2.43.0


From a147a7e55b7d2726447569889f7ed099e8b7cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:45 +0000
Subject: [PATCH 25/34] fix: formatting keeps block comments intact and
 formatted text no longer changes when formatted again

---
 src/compiler/cnd_fmt.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..a88e365 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -23,6 +23,7 @@ typedef enum {
     FMT_COMMA,     // ,
     FMT_AT,        // @
     FMT_COMMENT,   // // ...
+    FMT_BLOCK_COMMENT, // /* ... */
     FMT_NEWLINE,   // \n
     FMT_WHITESPACE // spaces/tabs
 } FmtTokenType;
@@ -83,6 +84,20 @@ static FmtToken fmt_next(FmtLexer* l) {
         return t;
     }
 
+    if (c == '/' && *l->current == '*') {
+        t.type = FMT_BLOCK_COMMENT;
+        l->current++;
+        while (*l->current != '\0') {
+            if (*l->current == '*' && *(l->current + 1) == '/') {
+                l->current += 2;
+                break;
+            }
+            l->current++;
+        }
+        t.length = (int)(l->current - t.start);
+        return t;
+    }
+
     switch (c) {
         case '{': t.type = FMT_LBRACE; return t;
         case '}': t.type = FMT_RBRACE; return t;
@@ -139,7 +154,8 @@ char* cnd_format_source(const char* source) {
     sb_init(&out);
 
     int indent = 0;
-    int newline_pending = 0;
+    int newline_pending = 0; // Line break required by the previous token
+    int source_newlines = 0; // Line breaks in the source, at most two are kept
     int space_pending = 0;
     int on_new_line = 1;
 
@@ -159,7 +175,7 @@ char* cnd_format_source(const char* source) {
         }
 
         if (t.type == FMT_NEWLINE) {
-            if (newline_pending < 2) newline_pending++;
+            if (source_newlines < 2) source_newlines++;
             continue;
         }
 
@@ -168,7 +184,10 @@ char* cnd_format_source(const char* source) {
             indent--;
             if (indent < 0) indent = 0;
             newline_pending = 1;
+            source_newlines = 0;
         }
+        if (source_newlines > newline_pending) newline_pending = source_newlines;
+        source_newlines = 0;
 
         // Apply newlines
         if (newline_pending > 0) {
@@ -185,14 +204,10 @@ char* cnd_format_source(const char* source) {
         if (on_new_line) {
             sb_indent(&out, indent);
             on_new_line = 0;
-        } else if (space_pending) {
-            sb_append(&out, " ");
-            space_pending = 0;
-        }
-
-        if (t.type == FMT_LBRACE) {
-            sb_append(&out, " "); // Space before {
+        } else if (space_pending || t.type == FMT_LBRACE) {
+            sb_append(&out, " "); // Always a space before {
         }
+        space_pending = 0;
 
         sb_append_n(&out, t.start, t.length);
 
@@ -208,7 +223,7 @@ char* cnd_format_source(const char* source) {
         prev = t;
     }
     
-    sb_append(&out, "\n");
+    if (out.length == 0 || out.data[out.length - 1] != '\n') sb_append(&out, "\n");
     char* result = sb_build(&out);
     sb_free(&out);
     return result;
-- 
2.43.0


From 897e821e10ad6256e8c183ea0ec4ed98721c00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:48 +0000
Subject: [PATCH 26/34] fix: formatting a directory is an error instead of a
 crash

---
 src/compiler/cnd_fmt.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index a88e365..908e03c 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include "compiler.h"
 #include "cnd_internal.h"
 
@@ -240,9 +241,13 @@ int cnd_format_file(const char* in_path, const char* out_path) {
     long size = ftell(f);
     fseek(f, 0, SEEK_SET);
 
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
+    char* source = (size < 0 || size == LONG_MAX) ? NULL : (char*)malloc(size + 1);
+    if (!source) { // Not a regular file
+        fprintf(stderr, "Failed to read input file: %s\n", in_path);
+        fclose(f);
+        return 1;
+    }
+    source[fread(source, 1, size, f)] = '\0';
     fclose(f);
 
     char* formatted = cnd_format_source(source);
-- 
2.43.0


From 1d44f5e30eb6802fd77e994290186baa507fc8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:27 +0000
Subject: [PATCH 27/34] fix: count line breaks inside string literals

---
 src/compiler/cnd_lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_lexer.c b/src/compiler/cnd_lexer.c
index 0aa3181..9ab635b 100644
--- a/src/compiler/cnd_lexer.c
+++ b/src/compiler/cnd_lexer.c
@@ -132,7 +132,10 @@ Token lexer_next(Lexer* lexer) {
             case '"': {
                 token.type = TOK_STRING;
                 token.start = lexer->current;
-                while (*lexer->current != '"' && *lexer->current != '\0') lexer->current++;
+                while (*lexer->current != '"' && *lexer->current != '\0') {
+                    if (*lexer->current == '\n') lexer->line++;
+                    lexer->current++;
+                }
                 token.length = (int)(lexer->current - token.start);
                 if (*lexer->current == '"') lexer->current++;
                 return token;
-- 
2.43.0


From 24784aabd88dfe2f31921ddc0a7496067f4475ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:46 +0000
Subject: [PATCH 28/34] fix: report unknown structs, unaligned structs and
 failed imports on their own line

---
 src/compiler/cnd_parser.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index a5136bf..335b6a1 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -277,6 +277,14 @@ void parser_error(Parser* p, const char* msg) {
     }
 }
 
+// Report an error at a token which has been consumed already
+static void parser_error_at(Parser* p, Token at, const char* msg) {
+    Token current = p->current;
+    p->current = at;
+    parser_error(p, msg);
+    p->current = current;
+}
+
 void advance(Parser* p) {
     p->previous = p->current;
     for (;;) {
@@ -1543,7 +1551,7 @@ void parse_struct(Parser* p, const char* doc) {
             
             snprintf(msg, sizeof(msg), "Unaligned struct '%s' must end on byte boundary (current bits: %d). Use @fill.", 
                      struct_name, p->current_bit_count);
-            parser_error(p, msg);
+            parser_error_at(p, name, msg);
         }
         buf_push(p->target, OP_EXIT_BIT_MODE);
         restore_endian(p, 0, def);
@@ -1592,7 +1600,7 @@ void parse_packet(Parser* p, const char* doc) {
         
         StructDef* sdef = reg_find(&p->registry, struct_name.start, struct_name.length);
         if (!sdef) {
-            parser_error(p, "Struct not found");
+            parser_error_at(p, struct_name, "Struct not found");
         } else {
             // Inline the struct's bytecode
             size_t struct_base = buf_current_offset(p->target);
@@ -1641,7 +1649,7 @@ void parse_import(Parser* p) {
     // Extract string content (Lexer already removed quotes)
     char rel_path[256];
     int len = path_tok.length;
-    if (len >= 256) { parser_error(p, "Import path too long"); return; }
+    if (len >= 256) { parser_error_at(p, path_tok, "Import path too long"); return; }
     memcpy(rel_path, path_tok.start, len);
     rel_path[len] = '\0';
     
@@ -1665,7 +1673,7 @@ void parse_import(Parser* p) {
     if (!f) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
-        parser_error(p, msg);
+        parser_error_at(p, path_tok, msg);
         free(full_path);
         return;
     }
@@ -1674,7 +1682,7 @@ void parse_import(Parser* p) {
     char* source = (size < 0 || size == LONG_MAX) ? NULL : (char*)malloc(size + 1);
     if (!source) { // Not a regular file
         fclose(f);
-        parser_error(p, "Could not read imported file");
+        parser_error_at(p, path_tok, "Could not read imported file");
         free(full_path);
         return;
     }
-- 
2.43.0


From 1ec0427d4cb8955363fd04f5f5bd6979336447f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 29/34] fix: the command-line tools report directories and
 empty files instead of crashing

---
 src/cli/cli_helpers.c | 14 ++++++--------
 src/cli/cmd_inspect.c | 10 ++++++++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..0d0ee7f 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <limits.h>
 #include "cli_helpers.h"
 
 // =================================================================================================
@@ -14,10 +15,10 @@ uint8_t* read_file_bytes(const char* path, size_t* out_len) {
     fseek(f, 0, SEEK_END);
     long size = ftell(f);
     fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
+    uint8_t* buf = (size < 0 || size == LONG_MAX) ? NULL : malloc((size_t)size + 1); // NULL if not a regular file
+    size_t len = buf ? fread(buf, 1, size, f) : 0;
     fclose(f);
-    if (out_len) *out_len = size;
+    if (out_len) *out_len = len;
     return buf;
 }
 
@@ -27,11 +28,8 @@ char* read_file_text(const char* path) {
     fseek(f, 0, SEEK_END);
     long size = ftell(f);
     fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
-    }
+    char* buf = (size < 0 || size == LONG_MAX) ? NULL : malloc((size_t)size + 1); // NULL if not a regular file
+    if (buf) buf[fread(buf, 1, size, f)] = '\0';
     fclose(f);
     return buf;
 }
diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 94a123a..0354444 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <stdint.h>
 #include <inttypes.h>
+#include <limits.h>
 #include "concordia.h"
 
 // Helper to read bytes from memory safely
@@ -157,8 +158,13 @@ int cmd_inspect(int argc, char** argv) {
     fseek(f, 0, SEEK_END);
     long size = ftell(f);
     fseek(f, 0, SEEK_SET);
-    uint8_t* data = (uint8_t*)malloc(size);
-    fread(data, 1, size, f);
+    uint8_t* data = (size < 0 || size == LONG_MAX) ? NULL : (uint8_t*)malloc((size_t)size + 1);
+    if (!data) { // Not a regular file
+        printf("Error reading file: %s\n", path);
+        fclose(f);
+        return 1;
+    }
+    size = (long)fread(data, 1, size, f);
     fclose(f);
 
     printf("Inspecting: %s (%ld bytes)\n", path, size);
-- 
2.43.0


From 841b34961bb3eef1f57990d5db5585742e2cdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 30/34] fix: loading an image for encode and decode checks that
 its string table ends inside the file

---
 src/cli/cli_helpers.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 0d0ee7f..1793503 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -55,25 +55,41 @@ int write_file_text(const char* path, const char* text) {
 // =================================================================================================
 
 int load_il(const char* path, ILFile* il) {
+    il->string_table = NULL;
     il->raw_data = read_file_bytes(path, &il->raw_len);
     if (!il->raw_data) return 0;
     
     if (il->raw_len < 16 || memcmp(il->raw_data, "CNDIL", 5) != 0) {
         printf("Invalid IL file magic\n");
+        free_il(il);
         return 0;
     }
     
-    il->str_count = *(uint16_t*)(il->raw_data + 6);
-    uint32_t str_offset = *(uint32_t*)(il->raw_data + 8);
-    uint32_t bc_offset = *(uint32_t*)(il->raw_data + 12);
+    const uint8_t* raw = il->raw_data;
+    il->str_count = (uint16_t)(raw[6] | (raw[7] << 8));
+    uint32_t str_offset = raw[8] | (raw[9] << 8) | (raw[10] << 16) | ((uint32_t)raw[11] << 24);
+    uint32_t bc_offset = raw[12] | (raw[13] << 8) | (raw[14] << 16) | ((uint32_t)raw[15] << 24);
     
-    if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
+    if (str_offset > il->raw_len || bc_offset > il->raw_len) {
+        free_il(il);
+        return 0;
+    }
 
-    il->string_table = malloc(il->str_count * sizeof(char*));
+    il->string_table = malloc((il->str_count + 1) * sizeof(char*));
+    if (!il->string_table) {
+        free_il(il);
+        return 0;
+    }
     const char* ptr = (const char*)(il->raw_data + str_offset);
+    const char* end = (const char*)(il->raw_data + il->raw_len);
     for (int i = 0; i < il->str_count; i++) {
+        const char* nul = memchr(ptr, 0, end - ptr);
+        if (!nul) { // String table runs past the end of the file
+            free_il(il);
+            return 0;
+        }
         il->string_table[i] = ptr;
-        ptr += strlen(ptr) + 1;
+        ptr = nul + 1;
     }
     
     il->bytecode = il->raw_data + bc_offset;
@@ -83,6 +99,8 @@ int load_il(const char* path, ILFile* il) {
 }
 
 void free_il(ILFile* il) {
-    if (il->raw_data) free(il->raw_data);
-    if (il->string_table) free(il->string_table);
+    free(il->raw_data);
+    free(il->string_table);
+    il->raw_data = NULL;
+    il->string_table = NULL;
 }
-- 
2.43.0


From 4fc39d868a53adc69817f19f8f15d596fea48a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 31/34] fix: inspecting a damaged image stays inside the file's
 contents

---
 src/cli/cmd_inspect.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 0354444..c3495bf 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -13,21 +13,21 @@ static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
 }
 
 static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 2 > end) return 0;
+    if (end - *ptr < 2) return 0;
     uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
     *ptr += 2;
     return v;
 }
 
 static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 4 > end) return 0;
-    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((*ptr)[3] << 24);
+    if (end - *ptr < 4) return 0;
+    uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((uint32_t)(*ptr)[3] << 24);
     *ptr += 4;
     return v;
 }
 
 static uint64_t read_u64(const uint8_t** ptr, const uint8_t* end) {
-    if (*ptr + 8 > end) return 0;
+    if (end - *ptr < 8) return 0;
     uint64_t v = (uint64_t)(*ptr)[0] | ((uint64_t)(*ptr)[1] << 8) | ((uint64_t)(*ptr)[2] << 16) | ((uint64_t)(*ptr)[3] << 24) |
                  ((uint64_t)(*ptr)[4] << 32) | ((uint64_t)(*ptr)[5] << 40) | ((uint64_t)(*ptr)[6] << 48) | ((uint64_t)(*ptr)[7] << 56);
     *ptr += 8;
@@ -178,24 +178,25 @@ int cmd_inspect(int argc, char** argv) {
 
     uint8_t version = data[5];
     uint16_t str_count = data[6] | (data[7] << 8);
-    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | (data[11] << 24);
-    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | (data[15] << 24);
+    uint32_t str_offset = data[8] | (data[9] << 8) | (data[10] << 16) | ((uint32_t)data[11] << 24);
+    uint32_t bc_offset = data[12] | (data[13] << 8) | (data[14] << 16) | ((uint32_t)data[15] << 24);
 
     printf("\n--- Header ---\n");
     printf("Version: %d\n", version);
     printf("String Count: %d\n", str_count);
-    printf("String Table Offset: %d\n", str_offset);
-    printf("Bytecode Offset: %d\n", bc_offset);
+    printf("String Table Offset: %u\n", str_offset);
+    printf("Bytecode Offset: %u\n", bc_offset);
 
     // Print String Table
     printf("\n--- String Table ---\n");
     if ((long)str_offset < size) {
         const char* ptr = (const char*)(data + str_offset);
         for (int i = 0; i < str_count; i++) {
-            printf("[%d] %s\n", i, ptr);
-            while (*ptr) ptr++;
-            ptr++; // Skip null
-            if ((uint8_t*)ptr > data + size) break;
+            size_t left = (size_t)((const char*)data + size - ptr);
+            const char* nul = (const char*)memchr(ptr, 0, left);
+            printf("[%d] %.*s\n", i, (int)(nul ? (size_t)(nul - ptr) : left), ptr);
+            if (!nul) break; // Runs past the end of the file
+            ptr = nul + 1;
         }
     }
 
-- 
2.43.0


From e8abeab29e20c8982c2298fc717992d100b6e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:32 +0000
Subject: [PATCH 32/34] fix: inspect lists every instruction with all its
 operands in order

---
 src/cli/cmd_inspect.c | 103 ++++++++++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index c3495bf..171e00e 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -89,6 +89,7 @@ static const char* get_opcode_name(uint8_t op) {
         case OP_ENUM_CHECK: return "ENUM_CHECK";
         case OP_JUMP_IF_NOT: return "JUMP_IF_NOT";
         case OP_SWITCH: return "SWITCH";
+        case OP_SWITCH_TABLE: return "SWITCH_TABLE";
         case OP_JUMP: return "JUMP";
         case OP_LOAD_CTX: return "LOAD_CTX";
         case OP_STORE_CTX: return "STORE_CTX";
@@ -206,8 +207,17 @@ int cmd_inspect(int argc, char** argv) {
         const uint8_t* ptr = data + bc_offset;
         const uint8_t* end = data + size;
         const uint8_t* start = ptr;
+        const uint8_t* table_at[64]; // Jump tables of the enclosing switches
+        const uint8_t* table_end[64];
+        int tables = 0;
 
         while (ptr < end) {
+            if (tables > 0 && ptr >= table_at[tables - 1]) {
+                tables--;
+                if (ptr == table_at[tables]) ptr = table_end[tables]; // Listed with its switch
+                continue;
+            }
+
             uint32_t offset = (uint32_t)(ptr - start);
             uint8_t op = read_u8(&ptr, end);
             printf("%04X: %-15s", offset, get_opcode_name(op));
@@ -257,6 +267,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_PRE_U8:
                 case OP_ARR_PRE_U16:
                 case OP_ARR_PRE_U32:
+                case OP_ARR_EOF:
                     printf(" KeyID=%d", read_u16(&ptr, end));
                     break;
 
@@ -278,7 +289,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_ARR_FIXED: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    printf(" KeyID=%d Count=%u", k, c);
                     break;
                 }
 
@@ -292,7 +303,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_RAW_BYTES: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t c = read_u32(&ptr, end);
-                    printf(" KeyID=%d Count=%d", k, c);
+                    printf(" KeyID=%d Count=%u", k, c);
                     break;
                 }
 
@@ -310,26 +321,40 @@ int cmd_inspect(int argc, char** argv) {
                     uint16_t key = read_u16(&ptr, end);
                     uint8_t type = read_u8(&ptr, end);
                     printf(" KeyID=%d Type=%s Val=", key, get_opcode_name(type));
-                    if (type == OP_IO_U8 || type == OP_IO_I8) printf("%u", read_u8(&ptr, end));
-                    else if (type == OP_IO_U16 || type == OP_IO_I16) printf("%u", read_u16(&ptr, end));
-                    else if (type == OP_IO_U32 || type == OP_IO_I32) printf("%u", read_u32(&ptr, end));
-                    else if (type == OP_IO_U64 || type == OP_IO_I64) printf("%" PRIu64, read_u64(&ptr, end));
+                    if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
+                    else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
+                    else if (type == OP_IO_U32) printf("%u", read_u32(&ptr, end));
+                    else if (type == OP_IO_U64) printf("%" PRIu64, read_u64(&ptr, end));
+                    else if (type == OP_IO_I8) printf("%d", (int8_t)read_u8(&ptr, end));
+                    else if (type == OP_IO_I16) printf("%d", (int16_t)read_u16(&ptr, end));
+                    else if (type == OP_IO_I32) printf("%d", (int32_t)read_u32(&ptr, end));
+                    else if (type == OP_IO_I64) printf("%" PRId64, (int64_t)read_u64(&ptr, end));
                     break;
                 }
 
                 case OP_RANGE_CHECK: {
                     uint8_t type = read_u8(&ptr, end);
                     printf(" Type=%s Range=[", get_opcode_name(type));
-                    if (type == OP_IO_U8) { printf("%u, %u]", read_u8(&ptr, end), read_u8(&ptr, end)); }
-                    else if (type == OP_IO_I8) { printf("%d, %d]", (int8_t)read_u8(&ptr, end), (int8_t)read_u8(&ptr, end)); }
-                    else if (type == OP_IO_U16) { printf("%u, %u]", read_u16(&ptr, end), read_u16(&ptr, end)); }
-                    else if (type == OP_IO_I16) { printf("%d, %d]", (int16_t)read_u16(&ptr, end), (int16_t)read_u16(&ptr, end)); }
-                    else if (type == OP_IO_U32) { printf("%u, %u]", read_u32(&ptr, end), read_u32(&ptr, end)); }
-                    else if (type == OP_IO_I32) { printf("%d, %d]", (int32_t)read_u32(&ptr, end), (int32_t)read_u32(&ptr, end)); }
-                    else if (type == OP_IO_U64) { printf("%" PRIu64 ", %" PRIu64 "]", read_u64(&ptr, end), read_u64(&ptr, end)); }
-                    else if (type == OP_IO_I64) { printf("%" PRId64 ", %" PRId64 "]", (int64_t)read_u64(&ptr, end), (int64_t)read_u64(&ptr, end)); }
-                    else if (type == OP_IO_F32) { printf("F32 Range"); ptr += 8; }
-                    else if (type == OP_IO_F64) { printf("F64 Range"); ptr += 16; }
+                    if (type == OP_IO_U8) { uint8_t lo = read_u8(&ptr, end), hi = read_u8(&ptr, end); printf("%u, %u]", lo, hi); }
+                    else if (type == OP_IO_I8) { int8_t lo = (int8_t)read_u8(&ptr, end), hi = (int8_t)read_u8(&ptr, end); printf("%d, %d]", lo, hi); }
+                    else if (type == OP_IO_U16) { uint16_t lo = read_u16(&ptr, end), hi = read_u16(&ptr, end); printf("%u, %u]", lo, hi); }
+                    else if (type == OP_IO_I16) { int16_t lo = (int16_t)read_u16(&ptr, end), hi = (int16_t)read_u16(&ptr, end); printf("%d, %d]", lo, hi); }
+                    else if (type == OP_IO_U32) { uint32_t lo = read_u32(&ptr, end), hi = read_u32(&ptr, end); printf("%u, %u]", lo, hi); }
+                    else if (type == OP_IO_I32) { int32_t lo = (int32_t)read_u32(&ptr, end), hi = (int32_t)read_u32(&ptr, end); printf("%d, %d]", lo, hi); }
+                    else if (type == OP_IO_U64) { uint64_t lo = read_u64(&ptr, end), hi = read_u64(&ptr, end); printf("%" PRIu64 ", %" PRIu64 "]", lo, hi); }
+                    else if (type == OP_IO_I64) { int64_t lo = (int64_t)read_u64(&ptr, end), hi = (int64_t)read_u64(&ptr, end); printf("%" PRId64 ", %" PRId64 "]", lo, hi); }
+                    else if (type == OP_IO_F32) { 
+                        uint32_t tmp[2]; float v[2];
+                        for (int i = 0; i < 2; i++) tmp[i] = read_u32(&ptr, end);
+                        memcpy(v, tmp, sizeof(v));
+                        printf("%f, %f]", v[0], v[1]);
+                    }
+                    else if (type == OP_IO_F64) {
+                        uint64_t tmp[2]; double v[2];
+                        for (int i = 0; i < 2; i++) tmp[i] = read_u64(&ptr, end);
+                        memcpy(v, tmp, sizeof(v));
+                        printf("%f, %f]", v[0], v[1]);
+                    }
                     break;
                 }
 
@@ -378,15 +403,21 @@ int cmd_inspect(int argc, char** argv) {
                     break;
                 }
 
-                case OP_CRC_16:
-                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", 
-                        read_u16(&ptr, end), read_u16(&ptr, end), read_u16(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_16: {
+                    uint16_t poly = read_u16(&ptr, end);
+                    uint16_t init = read_u16(&ptr, end);
+                    uint16_t xor_out = read_u16(&ptr, end);
+                    printf(" Poly=0x%04X Init=0x%04X Xor=0x%04X Flags=%d", poly, init, xor_out, read_u8(&ptr, end));
                     break;
+                }
 
-                case OP_CRC_32:
-                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", 
-                        read_u32(&ptr, end), read_u32(&ptr, end), read_u32(&ptr, end), read_u8(&ptr, end));
+                case OP_CRC_32: {
+                    uint32_t poly = read_u32(&ptr, end);
+                    uint32_t init = read_u32(&ptr, end);
+                    uint32_t xor_out = read_u32(&ptr, end);
+                    printf(" Poly=0x%08X Init=0x%08X Xor=0x%08X Flags=%d", poly, init, xor_out, read_u8(&ptr, end));
                     break;
+                }
 
                 case OP_ENUM_CHECK: {
                     uint8_t type = read_u8(&ptr, end);
@@ -407,10 +438,36 @@ int cmd_inspect(int argc, char** argv) {
                     break;
                 }
 
-                case OP_SWITCH: {
+                case OP_SWITCH:
+                case OP_SWITCH_TABLE: {
                     uint16_t k = read_u16(&ptr, end);
                     uint32_t t = read_u32(&ptr, end);
                     printf(" KeyID=%d TableOff=%u", k, t);
+                    if (t > (size_t)(end - ptr)) break;
+
+                    const uint8_t* table = ptr + t;
+                    const uint8_t* table_start = table;
+                    if (op == OP_SWITCH) {
+                        uint16_t count = read_u16(&table, end);
+                        printf(" Count=%d Default=%d Cases=[", count, (int32_t)read_u32(&table, end));
+                        for (int i = 0; i < count && end - table >= 12; i++) {
+                            uint64_t val = read_u64(&table, end);
+                            printf("%s%" PRIu64 "->%d", i ? ", " : "", val, (int32_t)read_u32(&table, end));
+                        }
+                    } else {
+                        uint64_t min_val = read_u64(&table, end);
+                        uint64_t max_val = read_u64(&table, end);
+                        printf(" Min=%" PRIu64 " Max=%" PRIu64 " Default=%d Offsets=[", min_val, max_val, (int32_t)read_u32(&table, end));
+                        for (uint64_t v = min_val; v <= max_val && end - table >= 4; v++) {
+                            printf("%s%d", v > min_val ? ", " : "", (int32_t)read_u32(&table, end));
+                            if (v == max_val) break;
+                        }
+                    }
+                    printf("]");
+                    if (tables < (int)(sizeof(table_at) / sizeof(table_at[0]))) {
+                        table_at[tables] = table_start;
+                        table_end[tables++] = table;
+                    }
                     break;
                 }
 
-- 
2.43.0


From 1dbe95b3ecf9998a68952212473337741d67db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:00 +0000
Subject: [PATCH 33/34] fix: inspect ends the listing at an instruction that is
 cut off

---
 src/cli/cmd_inspect.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cli/cmd_inspect.c b/src/cli/cmd_inspect.c
index 171e00e..c0c17c8 100644
--- a/src/cli/cmd_inspect.c
+++ b/src/cli/cmd_inspect.c
@@ -13,21 +13,21 @@ static uint8_t read_u8(const uint8_t** ptr, const uint8_t* end) {
 }
 
 static uint16_t read_u16(const uint8_t** ptr, const uint8_t* end) {
-    if (end - *ptr < 2) return 0;
+    if (end - *ptr < 2) { *ptr = end; return 0; }
     uint16_t v = (*ptr)[0] | ((*ptr)[1] << 8);
     *ptr += 2;
     return v;
 }
 
 static uint32_t read_u32(const uint8_t** ptr, const uint8_t* end) {
-    if (end - *ptr < 4) return 0;
+    if (end - *ptr < 4) { *ptr = end; return 0; }
     uint32_t v = (*ptr)[0] | ((*ptr)[1] << 8) | ((*ptr)[2] << 16) | ((uint32_t)(*ptr)[3] << 24);
     *ptr += 4;
     return v;
 }
 
 static uint64_t read_u64(const uint8_t** ptr, const uint8_t* end) {
-    if (end - *ptr < 8) return 0;
+    if (end - *ptr < 8) { *ptr = end; return 0; }
     uint64_t v = (uint64_t)(*ptr)[0] | ((uint64_t)(*ptr)[1] << 8) | ((uint64_t)(*ptr)[2] << 16) | ((uint64_t)(*ptr)[3] << 24) |
                  ((uint64_t)(*ptr)[4] << 32) | ((uint64_t)(*ptr)[5] << 40) | ((uint64_t)(*ptr)[6] << 48) | ((uint64_t)(*ptr)[7] << 56);
     *ptr += 8;
@@ -378,7 +378,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_TRANS_POLY: {
                     uint8_t count = read_u8(&ptr, end);
                     printf(" Count=%d Coeffs=[", count);
-                    for (int i = 0; i < count; i++) {
+                    for (int i = 0; i < count && ptr < end; i++) {
                         uint64_t tmp = read_u64(&ptr, end);
                         double val;
                         memcpy(&val, &tmp, 8);
@@ -391,7 +391,7 @@ int cmd_inspect(int argc, char** argv) {
                 case OP_TRANS_SPLINE: {
                     uint8_t count = read_u8(&ptr, end);
                     printf(" Count=%d Points=[", count);
-                    for (int i = 0; i < count; i++) {
+                    for (int i = 0; i < count && ptr < end; i++) {
                         uint64_t tmp_x = read_u64(&ptr, end);
                         uint64_t tmp_y = read_u64(&ptr, end);
                         double x, y;
@@ -423,7 +423,7 @@ int cmd_inspect(int argc, char** argv) {
                     uint8_t type = read_u8(&ptr, end);
                     uint16_t count = read_u16(&ptr, end);
                     printf(" Type=%s Count=%d Values=[", get_opcode_name(type), count);
-                    for(int i=0; i<count; i++) {
+                    for(int i=0; i<count && ptr < end; i++) {
                         if (i > 0) printf(", ");
                         if (type == OP_IO_U8) printf("%u", read_u8(&ptr, end));
                         else if (type == OP_IO_U16) printf("%u", read_u16(&ptr, end));
-- 
2.43.0


From 5738fcc13281017bfbb19ea0ff42aa07c6020bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:42 +0000
Subject: [PATCH 34/34] fix: a doc comment may follow @import and other
 top-level decorators

---
 src/compiler/cnd_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 335b6a1..984ae55 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1754,6 +1754,8 @@ void parse_top_level(Parser* p) {
             }
         }
 
+        if (p->current.type == TOK_DOC_COMMENT) continue; // Documents the definition after the decorators
+
         char* doc_str = doc_sb.length > 0 ? sb_build(&doc_sb) : NULL;
 
         if (p->current.type == TOK_STRUCT) {
-- 
2.43.0

