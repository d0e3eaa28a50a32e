From 112b2bbedbb2e9838ceb5534c471501ba22d04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:31 +0000
Subject: [PATCH 01/89] fix: convert integer operands of the conditional
 operator to its result type

---
 .../nodes/conditional_operator.c              | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index 4b0f303..c44aeb3 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -20,9 +20,26 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
+#include "kefir/ast-translator/util.h"
+#include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 
+static kefir_result_t convert_operand(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
+                                      struct kefir_irbuilder_block *builder,
+                                      const struct kefir_ast_conditional_operator *node,
+                                      const struct kefir_ast_node_base *operand) {
+    const struct kefir_ast_type *result_type = kefir_ast_translator_normalize_type(node->base.properties.type);
+    const struct kefir_ast_type *operand_type =
+        KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, operand->properties.type);
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(result_type)) {
+        REQUIRE_OK(
+            kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, operand_type, result_type));
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *mem,
                                                              struct kefir_ast_translator_context *context,
                                                              struct kefir_irbuilder_block *builder,
@@ -37,18 +54,22 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
+        REQUIRE_OK(convert_operand(mem, context, builder, node, node->expr2));
         kefir_size_t jmp2Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_JMP, 0));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr1, builder, context));
+        REQUIRE_OK(convert_operand(mem, context, builder, node, node->expr1));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp2Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     } else {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
+        REQUIRE_OK(convert_operand(mem, context, builder, node, node->condition));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
+        REQUIRE_OK(convert_operand(mem, context, builder, node, node->expr2));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     }
 
-- 
2.43.0


From 118b08de6ff287c596d700d15e0b0fac879b344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:28 +0000
Subject: [PATCH 02/89] fix: test floating-point controlling expressions of
 statements by value

---
 headers/kefir/ast-translator/typeconv.h       |  2 ++
 .../nodes/conditional_statement.c             |  5 ++--
 .../ast-translator/nodes/do_while_statement.c |  5 ++--
 source/ast-translator/nodes/for_statement.c   |  5 ++--
 source/ast-translator/nodes/while_statement.c |  5 ++--
 source/ast-translator/typeconv.c              | 30 +++++++++++++++++++
 6 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/headers/kefir/ast-translator/typeconv.h b/headers/kefir/ast-translator/typeconv.h
index a055630..0851a52 100644
--- a/headers/kefir/ast-translator/typeconv.h
+++ b/headers/kefir/ast-translator/typeconv.h
@@ -28,6 +28,8 @@ kefir_result_t kefir_ast_translate_typeconv_normalize(struct kefir_irbuilder_blo
                                                       const struct kefir_ast_type_traits *,
                                                       const struct kefir_ast_type *);
 
+kefir_result_t kefir_ast_translate_truth_value(struct kefir_irbuilder_block *, const struct kefir_ast_type *);
+
 kefir_result_t kefir_ast_translate_typeconv(struct kefir_irbuilder_block *, const struct kefir_ast_type_traits *,
                                             const struct kefir_ast_type *, const struct kefir_ast_type *);
 
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index e63eebc..9810c8c 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
@@ -38,9 +39,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_truth_value(builder, condition_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/do_while_statement.c b/source/ast-translator/nodes/do_while_statement.c
index 124878b..f21ce56 100644
--- a/source/ast-translator/nodes/do_while_statement.c
+++ b/source/ast-translator/nodes/do_while_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/core/util.h"
@@ -46,9 +47,7 @@ kefir_result_t kefir_ast_translate_do_while_statement_node(struct kefir_mem *mem
 
     const struct kefir_ast_type *controlling_expr_type =
         kefir_ast_translator_normalize_type(node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_truth_value(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, beginning));
 
     REQUIRE_OK(kefir_ast_translator_flow_control_point_resolve(mem, flow_control_stmt->value.loop.end,
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 5a152f9..564f92e 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
@@ -65,9 +66,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
-        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-        }
+        REQUIRE_OK(kefir_ast_translate_truth_value(builder, controlling_expr_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index df6a92d..5ce9669 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
@@ -43,9 +44,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_truth_value(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(mem, flow_control_stmt->value.loop.end, builder->block,
diff --git a/source/ast-translator/typeconv.c b/source/ast-translator/typeconv.c
index ff306d9..3106981 100644
--- a/source/ast-translator/typeconv.c
+++ b/source/ast-translator/typeconv.c
@@ -89,6 +89,36 @@ static kefir_result_t cast_to_long_double(struct kefir_irbuilder_block *builder,
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_ast_translate_truth_value(struct kefir_irbuilder_block *builder,
+                                               const struct kefir_ast_type *origin) {
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+    REQUIRE(origin != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid origin AST type"));
+
+    const struct kefir_ast_type *normalized_origin = kefir_ast_translator_normalize_type(origin);
+    switch (normalized_origin->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDF32(builder, KEFIR_IROPCODE_PUSHF32, 0.0f, 0.0f));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F32EQUALS, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+            break;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDF64(builder, KEFIR_IROPCODE_PUSHF64, 0.0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F64EQUALS, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+            break;
+
+        case KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+            break;
+
+        default:
+            // Integral and pointer values can be tested directly
+            break;
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t cast_to_integer(const struct kefir_ast_type_traits *type_traits,
                                       struct kefir_irbuilder_block *builder, const struct kefir_ast_type *origin,
                                       const struct kefir_ast_type *target) {
-- 
2.43.0


From f8e795ce67887cba8387d9dfbfc15c683b2bd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 03/89] fix: convert floating-point values at or above 2^63 to
 unsigned 64-bit integers

---
 source/runtime/amd64_sysv.s | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 8b869c9..c188f16 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -963,15 +963,35 @@ define_opcode ldtrunc1
 
 define_opcode f32cint
     movss xmm0, [rsp]
+    comiss xmm0, [__kefirrt_f32cint_constant]
+    jae __kefirrt_f32cint_unsigned
     cvttss2si rax, xmm0
     mov [rsp], rax
     end_opcode
+__kefirrt_f32cint_unsigned:
+    subss xmm0, [__kefirrt_f32cint_constant]
+    cvttss2si rax, xmm0
+    btc rax, 63
+    mov [rsp], rax
+    end_opcode
+__kefirrt_f32cint_constant:
+    .long   0x5f000000
 
 define_opcode f64cint
     movsd xmm0, [rsp]
+    comisd xmm0, [__kefirrt_f64cint_constant]
+    jae __kefirrt_f64cint_unsigned
     cvttsd2si rax, xmm0
     mov [rsp], rax
     end_opcode
+__kefirrt_f64cint_unsigned:
+    subsd xmm0, [__kefirrt_f64cint_constant]
+    cvttsd2si rax, xmm0
+    btc rax, 63
+    mov [rsp], rax
+    end_opcode
+__kefirrt_f64cint_constant:
+    .quad   0x43e0000000000000
 
 define_opcode intcf32
     mov rax, [rsp]
@@ -1037,6 +1057,14 @@ define_opcode f64cf32
 
 define_opcode ldcint    
     fld TBYTE PTR [rsp]
+    xor DATA_REG, DATA_REG
+    fld DWORD PTR [__kefirrt_f32cint_constant]
+    fucomip st(0), st(1)
+    ja __kefirrt_ldcint_signed
+    jp __kefirrt_ldcint_signed
+    fsub DWORD PTR [__kefirrt_f32cint_constant]
+    btc DATA_REG, 63
+__kefirrt_ldcint_signed:
     fnstcw WORD PTR [rsp]
     movzx eax, WORD PTR [rsp]
     or eax, 3072
@@ -1045,6 +1073,7 @@ define_opcode ldcint
     fistp QWORD PTR [rsp + 8]
     fldcw WORD PTR [rsp]
     add rsp, 8
+    xor [rsp], DATA_REG
     end_opcode
 
 define_opcode intcld
-- 
2.43.0


From ce42591cf770bf239cb5bc0743711864d3d7003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 04/89] fix: clear upper half of a value narrowed from double
 to float

---
 source/runtime/amd64_sysv.s | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index c188f16..19896d2 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -1052,7 +1052,8 @@ define_opcode f32cf64
 define_opcode f64cf32
     movsd xmm0, [rsp]
     cvtsd2ss xmm0, xmm0
-    movss [rsp], xmm0
+    movd eax, xmm0
+    mov [rsp], rax
     end_opcode
 
 define_opcode ldcint    
-- 
2.43.0


From df9165a7ae770b6ed60e8659e8d43ade707355b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:16 +0000
Subject: [PATCH 05/89] fix: evaluate constant expressions in the types of
 their operands

---
 headers/kefir/ast/constant_expression.h       |  2 +-
 headers/kefir/preprocessor/preprocessor.h     |  3 +
 .../ast-translator/scope/data_initializer.c   |  2 +-
 .../constant_expression/binary_operation.c    | 65 ++++++++++++++-----
 .../ast/constant_expression/cast_operator.c   | 50 +++++++++++---
 .../conditional_operator.c                    | 35 +++++++---
 .../ast/constant_expression/unary_operation.c |  8 ++-
 source/preprocessor/convert.c                 | 24 +++++++
 source/preprocessor/preprocessor.c            |  2 +-
 9 files changed, 152 insertions(+), 39 deletions(-)

diff --git a/headers/kefir/ast/constant_expression.h b/headers/kefir/ast/constant_expression.h
index 18df5f7..efcab1f 100644
--- a/headers/kefir/ast/constant_expression.h
+++ b/headers/kefir/ast/constant_expression.h
@@ -87,7 +87,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *, cons
                                                         struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_node_base *,
-                                                        const struct kefir_ast_type *);
+                                                        const struct kefir_ast_type *, const struct kefir_ast_type *);
 
 struct kefir_ast_constant_expression *kefir_ast_new_constant_expression(struct kefir_mem *,
                                                                         struct kefir_ast_node_base *);
diff --git a/headers/kefir/preprocessor/preprocessor.h b/headers/kefir/preprocessor/preprocessor.h
index 9628de7..c6b68f1 100644
--- a/headers/kefir/preprocessor/preprocessor.h
+++ b/headers/kefir/preprocessor/preprocessor.h
@@ -123,5 +123,8 @@ kefir_result_t kefir_preprocessor_token_convert(struct kefir_mem *, struct kefir
                                                 const struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *, struct kefir_preprocessor *,
                                                        struct kefir_token_buffer *, const struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *, struct kefir_preprocessor *,
+                                                          struct kefir_token_buffer *,
+                                                          const struct kefir_token_buffer *);
 
 #endif
diff --git a/source/ast-translator/scope/data_initializer.c b/source/ast-translator/scope/data_initializer.c
index 45779c8..59fbe3b 100644
--- a/source/ast-translator/scope/data_initializer.c
+++ b/source/ast-translator/scope/data_initializer.c
@@ -165,7 +165,7 @@ static kefir_result_t visit_value(const struct kefir_ast_designator *designator,
     struct kefir_ast_constant_expression_value uncasted_value, value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, expression, &uncasted_value));
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value, expression,
-                                                        resolved_layout->type));
+                                                        expression->properties.type, resolved_layout->type));
     struct kefir_ir_typeentry *target_typeentry = kefir_ir_type_at(param->type, resolved_layout->value);
     REQUIRE(target_typeentry != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Cannot obtain target IR type entry"));
     switch (value.klass) {
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index fbab4fb..5849973 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -116,6 +116,18 @@ static kefir_result_t evaluate_pointer_diff(struct kefir_mem *mem, const struct
     return KEFIR_OK;
 }
 
+static kefir_result_t convert_operand(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                      const struct kefir_ast_node_base *operand, const struct kefir_ast_type *type,
+                                      struct kefir_ast_constant_expression_value *value) {
+    REQUIRE(value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER ||
+                value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT,
+            KEFIR_OK);
+    const struct kefir_ast_constant_expression_value source = *value;
+    REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &source, operand,
+                                                        operand->properties.type, type));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         const struct kefir_ast_binary_operation *node,
                                                         struct kefir_ast_constant_expression_value *value) {
@@ -144,6 +156,12 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
     if (node->type != KEFIR_AST_OPERATION_LOGICAL_AND && node->type != KEFIR_AST_OPERATION_LOGICAL_OR) {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg2, &arg2_value));
     }
+    if (common_arith_type != NULL && node->type != KEFIR_AST_OPERATION_SHIFT_LEFT &&
+        node->type != KEFIR_AST_OPERATION_SHIFT_RIGHT && node->type != KEFIR_AST_OPERATION_LOGICAL_AND &&
+        node->type != KEFIR_AST_OPERATION_LOGICAL_OR) {
+        REQUIRE_OK(convert_operand(mem, context, node->arg1, common_arith_type, &arg1_value));
+        REQUIRE_OK(convert_operand(mem, context, node->arg2, common_arith_type, &arg2_value));
+    }
     switch (node->type) {
         case KEFIR_AST_OPERATION_ADD:
             if (arg1_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
@@ -157,7 +175,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 value->floating_point = as_float(&arg1_value) + as_float(&arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer + arg2_value.integer;
+                value->uinteger = arg1_value.uinteger + arg2_value.uinteger;
             }
             break;
 
@@ -179,7 +197,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 value->floating_point = as_float(&arg1_value) - as_float(&arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer - arg2_value.integer;
+                value->uinteger = arg1_value.uinteger - arg2_value.uinteger;
             }
             break;
 
@@ -189,7 +207,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 value->floating_point = as_float(&arg1_value) * as_float(&arg2_value);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer * arg2_value.integer;
+                value->uinteger = arg1_value.uinteger * arg2_value.uinteger;
             }
             break;
 
@@ -202,42 +220,49 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer / arg2_value.integer;
+                if (arg2_value.integer == -1) {
+                    value->uinteger = -arg1_value.uinteger;
+                } else {
+                    value->integer = arg1_value.integer / arg2_value.integer;
+                }
             } else {
                 REQUIRE(arg2_value.integer != 0,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->uinteger = arg1_value.uinteger / arg2_value.integer;
+                value->uinteger = arg1_value.uinteger / arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_MODULO:
+            REQUIRE(arg2_value.integer != 0,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                           "Expected non-zero divisor in constant expression"));
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-            if (common_type_signed_integer) {
-                value->integer = arg1_value.integer % arg2_value.integer;
+            if (!common_type_signed_integer) {
+                value->uinteger = arg1_value.uinteger % arg2_value.uinteger;
+            } else if (arg2_value.integer == -1) {
+                value->integer = 0;
             } else {
-                value->uinteger = arg1_value.uinteger % arg2_value.integer;
+                value->integer = arg1_value.integer % arg2_value.integer;
             }
             break;
 
         case KEFIR_AST_OPERATION_SHIFT_LEFT:
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-            if (common_type_signed_integer) {
-                value->integer = arg1_value.integer << arg2_value.integer;
-            } else {
-                value->uinteger = arg1_value.uinteger << arg2_value.integer;
-            }
+            value->uinteger = arg1_value.uinteger << (arg2_value.uinteger & 63);
             break;
 
-        case KEFIR_AST_OPERATION_SHIFT_RIGHT:
+        case KEFIR_AST_OPERATION_SHIFT_RIGHT: {
+            kefir_bool_t signed_shift = false;
+            REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, node->base.properties.type, &signed_shift));
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-            if (common_type_signed_integer) {
-                value->integer = arg1_value.integer >> arg2_value.integer;
+            if (signed_shift) {
+                value->integer = arg1_value.integer >> (arg2_value.uinteger & 63);
             } else {
-                value->uinteger = arg1_value.uinteger >> arg2_value.integer;
+                value->uinteger = arg1_value.uinteger >> (arg2_value.uinteger & 63);
             }
-            break;
+        } break;
 
         case KEFIR_AST_OPERATION_LESS:
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
@@ -392,5 +417,9 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             value->integer = arg1_bool || arg2_bool;
         } break;
     }
+
+    if (KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->base.properties.type)) {
+        REQUIRE_OK(convert_operand(mem, context, KEFIR_AST_NODE_BASE(node), node->base.properties.type, value));
+    }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/cast_operator.c b/source/ast/constant_expression/cast_operator.c
index 45f848f..c8f3f70 100644
--- a/source/ast/constant_expression/cast_operator.c
+++ b/source/ast/constant_expression/cast_operator.c
@@ -85,10 +85,26 @@ static kefir_result_t cast_integral_type(struct kefir_mem *mem, const struct kef
     return KEFIR_OK;
 }
 
+// Floating-point values are kept in extended precision, and rounded to the precision of their own type when used
+static kefir_ast_constant_expression_float_t round_to_type(const struct kefir_ast_type *type,
+                                                           kefir_ast_constant_expression_float_t value) {
+    switch (type->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            return (kefir_float32_t) value;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            return (kefir_float64_t) value;
+
+        default:
+            return value;
+    }
+}
+
 kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         struct kefir_ast_constant_expression_value *value,
                                                         const struct kefir_ast_constant_expression_value *source,
                                                         const struct kefir_ast_node_base *node,
+                                                        const struct kefir_ast_type *source_type,
                                                         const struct kefir_ast_type *type) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST context"));
@@ -97,9 +113,11 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     REQUIRE(source != NULL,
             KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST constant expression value"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid base AST node"));
+    REQUIRE(source_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST type"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination AST type"));
 
     const struct kefir_ast_type *unqualified = kefir_ast_unqualified_type(type);
+    const struct kefir_ast_type *unqualified_source = kefir_ast_unqualified_type(source_type);
     if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified)) {
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
         switch (source->klass) {
@@ -109,10 +127,19 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
                 if (unqualified->tag == KEFIR_AST_TYPE_SCALAR_BOOL) {
-                    value->integer = (bool) source->floating_point;
+                    value->integer = (bool) round_to_type(unqualified_source, source->floating_point);
                 } else {
-                    REQUIRE_OK(cast_integral_type(mem, context, unqualified, value,
-                                                  (kefir_ast_constant_expression_int_t) source->floating_point));
+                    const kefir_ast_constant_expression_float_t floating_point =
+                        round_to_type(unqualified_source, source->floating_point);
+                    const kefir_ast_constant_expression_float_t unsigned_boundary = 9223372036854775808.0L;
+                    kefir_ast_constant_expression_int_t integer;
+                    if (floating_point >= unsigned_boundary) {
+                        integer = (kefir_ast_constant_expression_int_t) (
+                            (kefir_ast_constant_expression_uint_t) floating_point);
+                    } else {
+                        integer = (kefir_ast_constant_expression_int_t) floating_point;
+                    }
+                    REQUIRE_OK(cast_integral_type(mem, context, unqualified, value, integer));
                 }
                 break;
 
@@ -128,12 +155,19 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     } else if (KEFIR_AST_TYPE_IS_FLOATING_POINT(unqualified)) {
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
         switch (source->klass) {
-            case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER:
-                value->floating_point = (kefir_ast_constant_expression_float_t) source->integer;
-                break;
+            case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER: {
+                kefir_bool_t signed_source = true;
+                if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified_source)) {
+                    REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, unqualified_source, &signed_source));
+                }
+                value->floating_point =
+                    round_to_type(unqualified_source,
+                                  signed_source ? (kefir_ast_constant_expression_float_t) source->integer
+                                                : (kefir_ast_constant_expression_float_t) source->uinteger);
+            } break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
-                value->floating_point = source->floating_point;
+                value->floating_point = round_to_type(unqualified_source, source->floating_point);
                 break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS:
@@ -194,6 +228,6 @@ kefir_result_t kefir_ast_evaluate_cast_operator_node(struct kefir_mem *mem, cons
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr, &arg_value));
 
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, KEFIR_AST_NODE_BASE(node),
-                                                        node->base.properties.type));
+                                                        node->expr->properties.type, node->base.properties.type));
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/conditional_operator.c b/source/ast/constant_expression/conditional_operator.c
index 504dc2f..e5946d0 100644
--- a/source/ast/constant_expression/conditional_operator.c
+++ b/source/ast/constant_expression/conditional_operator.c
@@ -39,7 +39,7 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
             KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
                                    "Expected constant expression AST node"));
 
-    struct kefir_ast_constant_expression_value cond_value, arg1_value, arg2_value;
+    struct kefir_ast_constant_expression_value cond_value, arg_value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->condition, &cond_value));
 
     kefir_bool_t condition = false;
@@ -69,16 +69,33 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Non-evaluated constant expression");
     }
 
+    const struct kefir_ast_node_base *operand = node->expr2;
     if (condition) {
-        if (node->expr1 != NULL) {
-            REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr1, &arg1_value));
-            *value = arg1_value;
-        } else {
-            *value = cond_value;
-        }
+        operand = node->expr1 != NULL ? node->expr1 : node->condition;
+    }
+
+    if (operand == node->condition) {
+        arg_value = cond_value;
+    } else {
+        REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, operand, &arg_value));
+    }
+
+    kefir_bool_t convert = arg_value.klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS &&
+                           KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(node->base.properties.type);
+    if (convert && KEFIR_AST_TYPE_IS_FLOATING_POINT(kefir_ast_unqualified_type(node->base.properties.type)) &&
+        KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(kefir_ast_unqualified_type(operand->properties.type))) {
+        // Signed integers are converted to floating-point by the user of the value
+        kefir_bool_t signed_operand;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, kefir_ast_unqualified_type(operand->properties.type),
+                                            &signed_operand));
+        convert = !signed_operand;
+    }
+
+    if (convert) {
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, operand,
+                                                            operand->properties.type, node->base.properties.type));
     } else {
-        REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr2, &arg2_value));
-        *value = arg2_value;
+        *value = arg_value;
     }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/unary_operation.c b/source/ast/constant_expression/unary_operation.c
index e97e3b5..48680fe 100644
--- a/source/ast/constant_expression/unary_operation.c
+++ b/source/ast/constant_expression/unary_operation.c
@@ -82,7 +82,7 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg, &arg_value));
             if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = -arg_value.integer;
+                value->uinteger = -arg_value.uinteger;
             } else if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
                 value->floating_point = -arg_value.floating_point;
@@ -182,5 +182,11 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, context->target_env, opaque_type));
         } break;
     }
+
+    if (value->klass != KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
+        const struct kefir_ast_constant_expression_value source = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &source, KEFIR_AST_NODE_BASE(node),
+                                                            node->base.properties.type, node->base.properties.type));
+    }
     return KEFIR_OK;
 }
diff --git a/source/preprocessor/convert.c b/source/preprocessor/convert.c
index de7d4b9..9c677e2 100644
--- a/source/preprocessor/convert.c
+++ b/source/preprocessor/convert.c
@@ -270,3 +270,27 @@ kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *mem, st
     }
     return KEFIR_OK;
 }
+
+static void widen_integer_constants(struct kefir_token_buffer *tokens) {
+    // All integer constants in a controlling expression have the widest integer types
+    for (kefir_size_t i = 0; i < tokens->length; i++) {
+        if (tokens->tokens[i].klass == KEFIR_TOKEN_CONSTANT) {
+            struct kefir_constant_token *constant = &tokens->tokens[i].constant;
+            if (constant->type == KEFIR_CONSTANT_TOKEN_INTEGER || constant->type == KEFIR_CONSTANT_TOKEN_LONG_INTEGER) {
+                constant->type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+            } else if (constant->type == KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER ||
+                       constant->type == KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER) {
+                constant->type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
+            }
+        }
+    }
+}
+
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
+                                                          struct kefir_preprocessor *preprocessor,
+                                                          struct kefir_token_buffer *dst,
+                                                          const struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_convert_buffer(mem, preprocessor, dst, src));
+    widen_integer_constants(dst);
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index e5a5ed1..5545f4b 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -338,7 +338,7 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
     struct kefir_ast_constant_expression_value expr_value;
 
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
-    kefir_result_t res = kefir_preprocessor_token_convert_buffer(mem, preprocessor, &tokens, pp_tokens);
+    kefir_result_t res = kefir_preprocessor_token_convert_condition(mem, preprocessor, &tokens, pp_tokens);
     REQUIRE_CHAIN(&res, kefir_parser_token_cursor_init(&cursor, tokens.tokens, tokens.length));
     REQUIRE_CHAIN(&res, kefir_parser_init(mem, &parser, preprocessor->lexer.symbols, &cursor,
                                           preprocessor->extensions != NULL ? preprocessor->extensions->parser : NULL));
-- 
2.43.0


From 431bfdc57ebedd45fc55163e69489958d8ffc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:05 +0000
Subject: [PATCH 06/89] fix: perform compound assignment in the type of the
 operation

---
 .../nodes/assignment_operator.c               | 61 ++++++++++++++-----
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 5f5b76c..9f4292b 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -112,6 +112,22 @@ static kefir_result_t reorder_assignment_arguments(struct kefir_irbuilder_block
     return KEFIR_OK;
 }
 
+static kefir_result_t convert_result(struct kefir_ast_translator_context *context,
+                                     struct kefir_irbuilder_block *builder, const struct kefir_ast_type *common_type,
+                                     const struct kefir_ast_type *result_type) {
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(common_type)) {
+        // Unsigned arithmetic wraps around, the carry shall not be visible in the result
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, common_type, &signedness));
+        if (!signedness) {
+            REQUIRE_OK(kefir_ast_translate_typeconv_normalize(builder, context->ast_context->type_traits, common_type));
+        }
+    }
+    REQUIRE_OK(
+        kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_type));
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                                struct kefir_irbuilder_block *builder,
                                                const struct kefir_ast_assignment_operator *node) {
@@ -158,8 +174,7 @@ static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kef
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
             break;
     }
-    REQUIRE_OK(
-        kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
+    REQUIRE_OK(convert_result(context, builder, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
     return KEFIR_OK;
 }
@@ -216,12 +231,23 @@ static kefir_result_t translate_divide(struct kefir_mem *mem, struct kefir_ast_t
             }
         } break;
     }
-    REQUIRE_OK(
-        kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
+    REQUIRE_OK(convert_result(context, builder, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
     return KEFIR_OK;
 }
 
+static kefir_result_t is_signed_operation(struct kefir_ast_translator_context *context,
+                                          const struct kefir_ast_type *common_type,
+                                          const struct kefir_ast_type *value_type, kefir_bool_t *signedness) {
+    REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, common_type, signedness));
+    if (value_type->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG ||
+        value_type->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG) {
+        // Existing behavior: signed operand of maximal width makes operation signed
+        *signedness = true;
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                                struct kefir_irbuilder_block *builder,
                                                const struct kefir_ast_assignment_operator *node) {
@@ -233,10 +259,16 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, value_init_normalized_type);
     REQUIRE(value_normalized_type != NULL,
             KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
-    const struct kefir_ast_type *common_type = kefir_ast_type_common_arithmetic(
-        context->ast_context->type_traits, target_normalized_type,
-        node->target->properties.expression_props.bitfield_props, value_normalized_type,
-        node->value->properties.expression_props.bitfield_props);
+    const struct kefir_ast_type *common_type = NULL;
+    if (node->operation == KEFIR_AST_ASSIGNMENT_SHIFT_LEFT || node->operation == KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT) {
+        common_type = kefir_ast_type_int_promotion(context->ast_context->type_traits, target_normalized_type,
+                                                   node->target->properties.expression_props.bitfield_props);
+    } else {
+        common_type = kefir_ast_type_common_arithmetic(context->ast_context->type_traits, target_normalized_type,
+                                                       node->target->properties.expression_props.bitfield_props,
+                                                       value_normalized_type,
+                                                       node->value->properties.expression_props.bitfield_props);
+    }
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -254,7 +286,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
     switch (node->operation) {
         case KEFIR_AST_ASSIGNMENT_MODULO: {
             kefir_bool_t signedness;
-            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            REQUIRE_OK(is_signed_operation(context, common_type, value_normalized_type, &signedness));
 
             if (signedness) {
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMOD, 0));
@@ -269,7 +301,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
 
         case KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT: {
             kefir_bool_t signedness;
-            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            REQUIRE_OK(is_signed_operation(context, common_type, value_normalized_type, &signedness));
 
             if (signedness) {
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IARSHIFT, 0));
@@ -294,8 +326,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unexpected assignment operation");
     }
 
-    REQUIRE_OK(
-        kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
+    REQUIRE_OK(convert_result(context, builder, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
     return KEFIR_OK;
 }
@@ -349,8 +380,7 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
                 break;
         }
-        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
-                                                result_normalized_type));
+        REQUIRE_OK(convert_result(context, builder, common_type, result_normalized_type));
     } else {
         REQUIRE(target_normalized_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
                     KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(value_normalized_type),
@@ -433,8 +463,7 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
                 break;
         }
-        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
-                                                result_normalized_type));
+        REQUIRE_OK(convert_result(context, builder, common_type, result_normalized_type));
     } else {
         REQUIRE(target_normalized_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
                     KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(value_normalized_type),
-- 
2.43.0


From b8ffda91abc76e5f9394562a4c2ccd0d56fc59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:05 +0000
Subject: [PATCH 07/89] fix: discard both slots of a long double for-statement
 tail

---
 source/ast-translator/nodes/for_statement.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 564f92e..1028bb5 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -83,6 +83,9 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain normalized expression type"));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->tail, builder, context));
         if (tail_type->tag != KEFIR_AST_TYPE_VOID) {
+            if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(tail_type)) {
+                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
+            }
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         }
     }
-- 
2.43.0


From a6ec960dda7749b98bed6dc961a7145ffe0c5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:05 +0000
Subject: [PATCH 08/89] fix: test long double conditions of the conditional
 operator by value

---
 source/ast-translator/nodes/conditional_operator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index c44aeb3..d804ac4 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -51,6 +51,12 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
 
     if (node->expr1 != NULL) {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
+        const struct kefir_ast_type *condition_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
+            mem, context->ast_context->type_bundle, node->condition->properties.type);
+        REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(kefir_ast_translate_truth_value(builder, condition_type));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
-- 
2.43.0


From f800793cd360ab39a9de75c06a5b9086fa1dca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:11 +0000
Subject: [PATCH 09/89] fix: convert case labels to the promoted type of the
 controlling expression

---
 source/ast/analyzer/nodes/case_statement.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast/analyzer/nodes/case_statement.c b/source/ast/analyzer/nodes/case_statement.c
index 45acc00..c0a669f 100644
--- a/source/ast/analyzer/nodes/case_statement.c
+++ b/source/ast/analyzer/nodes/case_statement.c
@@ -72,6 +72,14 @@ kefir_result_t kefir_ast_analyze_case_statement_node(struct kefir_mem *mem, cons
         REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                        "Expected AST case label to be an integral constant expression"));
+        const struct kefir_ast_type *controlling_expr_type =
+            switch_statement->value.switchStatement.controlling_expression_type;
+        if (controlling_expr_type != NULL) {
+            const struct kefir_ast_constant_expression_value label = value;
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, &value, &label, node->expression,
+                                                                node->expression->properties.type,
+                                                                controlling_expr_type));
+        }
         struct kefir_ast_flow_control_point *point = kefir_ast_flow_control_point_alloc(mem, direct_parent);
         REQUIRE(point != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST flow control point"));
         kefir_result_t res =
-- 
2.43.0


From a8e4d7230fa275ea2b1e8bfc1b296141ae731032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:19 +0000
Subject: [PATCH 10/89] fix: keep alignments of 256 bytes and above in IR type
 entries

---
 headers/kefir/ir/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/kefir/ir/type.h b/headers/kefir/ir/type.h
index 1c98483..1d938eb 100644
--- a/headers/kefir/ir/type.h
+++ b/headers/kefir/ir/type.h
@@ -57,7 +57,7 @@ typedef enum kefir_ir_typecode {
 
 typedef struct kefir_ir_typeentry {
     kefir_ir_typecode_t typecode;
-    kefir_uint32_t alignment : 8;
+    kefir_uint32_t alignment;
     kefir_int64_t param;
 } kefir_ir_typeentry_t;
 
-- 
2.43.0


From 54eba3ad40b07cfafa4edc5b1c46a86dacc0b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:45 +0000
Subject: [PATCH 11/89] fix: mask static bit-field initialisers to the width of
 the bit-field

---
 source/ir/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ir/data.c b/source/ir/data.c
index 9d1917d..b01f4d6 100644
--- a/source/ir/data.c
+++ b/source/ir/data.c
@@ -129,7 +129,7 @@ kefir_result_t kefir_ir_data_set_bitfield(struct kefir_ir_data *data, kefir_size
     if (width == 64) {
         currentValue = value;
     } else {
-        const kefir_uint64_t mask = (1ull << (width + 1)) - 1;
+        const kefir_uint64_t mask = (1ull << width) - 1;
         currentValue = currentValue & (~(mask << offset));
         currentValue |= (value & mask) << offset;
     }
-- 
2.43.0


From f500ec667f182cd030befe295f044d9c01ce047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:45 +0000
Subject: [PATCH 12/89] fix: handle 64-bit wide bit-fields in extraction and
 insertion opcodes

---
 source/runtime/amd64_sysv.s | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 19896d2..ba21538 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -673,9 +673,9 @@ define_opcode bcopy
 define_opcode extubits
     mov edx, [INSTR_ARG_PTR]            # Offset
     mov ecx, [INSTR_ARG_PTR4]           # Width
-    mov r11, 1                          # Mask = (1 << Width) - 1
-    shlx r11, r11, rcx
-    sub r11, 1
+    mov r11, -1                         # Mask = ~0 >> (64 - Width)
+    neg rcx
+    shrx r11, r11, rcx
     pop rax                             # Value = (Bitfield >> Offset) & Mask
     shrx rax, rax, rdx
     and rax, r11
@@ -709,10 +709,10 @@ define_opcode insertbits
     sub rax, rdx                        # RAX = 64 - Width - Offset
     shrx rsi, rsi, rax
 
-    # Mask bit-field: Bit-field = Bit-field & ~(((1 << Width) - 1) << Offset)
-    mov rax, 1
-    shlx rax, rax, rcx
-    sub rax, 1
+    # Mask bit-field: Bit-field = Bit-field & ~((~0 >> (64 - Width)) << Offset)
+    mov rax, -1
+    neg rcx
+    shrx rax, rax, rcx
     shlx rax, rax, rdx
     not rax
     and rdi, rax
-- 
2.43.0


From b69a3112b1d88812779a22e02a26d2bf3aafafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:45 +0000
Subject: [PATCH 13/89] fix: truncate result of bit-field pre-increment to
 bit-field width

---
 source/ast-translator/nodes/unary_operation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 20c4040..28440ea 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -247,6 +247,15 @@ static kefir_result_t translate_preincdec(struct kefir_mem *mem, struct kefir_as
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
     }
     REQUIRE_OK(kefir_ast_translator_store_lvalue(mem, context, builder, node->arg));
+
+    if (node->arg->properties.expression_props.bitfield_props.bitfield &&
+        KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_type)) {
+        // Result is the value of the bit-field after assignment
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, normalized_type, &signedness));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, signedness ? KEFIR_IROPCODE_EXTSBITS : KEFIR_IROPCODE_EXTUBITS,
+                                                   0, node->arg->properties.expression_props.bitfield_props.width));
+    }
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 79581993c646d754c64cbfe789b019e6b2ff3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:44 +0000
Subject: [PATCH 14/89] fix: align long double arguments in overflow area of
 va_list

---
 source/runtime/amd64_sysv.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index ba21538..1f0dfc6 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -1272,6 +1272,8 @@ __kefirrt_load_sse_vararg_stack:
 __kefirrt_load_long_double_vararg:
     pop DATA_REG
     mov rax, [DATA_REG + 8]
+    add rax, 15                         # Long doubles are aligned at 16-byte boundary
+    and rax, -16
     lea rdx, [rax + 16]
     mov [DATA_REG + 8], rdx
     mov DATA_REG, [rax + 8]
-- 
2.43.0


From 2e639680f974df53fcb5d31cd63950cf4759a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:44 +0000
Subject: [PATCH 15/89] fix: round up start of va_list overflow area to
 eightbyte boundary

---
 source/codegen/amd64/system-v/abi/vararg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/codegen/amd64/system-v/abi/vararg.c b/source/codegen/amd64/system-v/abi/vararg.c
index a384156..d480c06 100644
--- a/source/codegen/amd64/system-v/abi/vararg.c
+++ b/source/codegen/amd64/system-v/abi/vararg.c
@@ -52,7 +52,9 @@ static kefir_result_t vararg_start(struct kefir_codegen_amd64 *codegen,
     ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_LEA);
     ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA2_REG);
     ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_INDIRECT_OFFSET, KEFIR_AMD64_RBP,
-               2 * KEFIR_AMD64_SYSV_ABI_QWORD + sysv_func->decl.parameters.location.stack_offset);
+               2 * KEFIR_AMD64_SYSV_ABI_QWORD +
+                   kefir_codegen_pad_aligned(sysv_func->decl.parameters.location.stack_offset,
+                                             KEFIR_AMD64_SYSV_ABI_QWORD));
 
     ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_MOV);
     ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_INDIRECT_OFFSET, KEFIR_AMD64_SYSV_ABI_DATA_REG,
-- 
2.43.0


From 36d00e9bf439feea4b165568d2159ccff02caee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 16/89] fix: null dereference when structure ends with unnamed
 bit-field in initializer traversal

---
 source/ast/analyzer/type_traversal.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index cc63891..1a31d1e 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -130,13 +130,13 @@ kefir_result_t kefir_ast_type_traversal_free(struct kefir_mem *mem, struct kefir
 static struct kefir_ast_struct_field *skip_unnamed_bitfields(struct kefir_ast_type_traversal_layer *layer) {
     REQUIRE(layer->structure.iterator != NULL, NULL);
 
-    struct kefir_ast_struct_field *field = NULL;
-    for (field = layer->structure.iterator->value;
-         layer->structure.iterator != NULL && field->identifier == NULL && field->bitfield;) {
-        kefir_list_next(&layer->structure.iterator);
-        field = layer->structure.iterator->value;
+    for (; layer->structure.iterator != NULL; kefir_list_next(&layer->structure.iterator)) {
+        struct kefir_ast_struct_field *field = layer->structure.iterator->value;
+        if (field->identifier != NULL || !field->bitfield) {
+            return field;
+        }
     }
-    return field;
+    return NULL;
 }
 
 kefir_result_t kefir_ast_type_traversal_next(struct kefir_mem *mem, struct kefir_ast_type_traversal *traversal,
-- 
2.43.0


From b9e4b15faccaf641065caf07b2962bebd725257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 17/89] fix: account for multi-level designators in implicit
 array length

---
 source/ast/analyzer/type_traversal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index 1a31d1e..10aaa6b 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -418,7 +418,9 @@ kefir_result_t kefir_ast_type_traversal_navigate(struct kefir_mem *mem, struct k
     REQUIRE(traversal != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid traversal structure"));
     REQUIRE(designator != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST designator"));
 
-    REQUIRE_OK(kefir_list_clear(mem, &traversal->stack));
+    while (kefir_list_length(&traversal->stack) > 0) {
+        REQUIRE_OK(pop_layer(mem, traversal));
+    }
     REQUIRE_OK(push_layer(mem, traversal, traversal->current_object_type, NULL));
     REQUIRE_OK(navigate_impl(mem, traversal, designator, false));
     return KEFIR_OK;
-- 
2.43.0


From 6980df93abfe419e45343e91e39dd122c73bee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 18/89] fix: continue initialization after member of anonymous
 structure/union

---
 source/ast/analyzer/type_traversal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index 10aaa6b..c2c2767 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -309,6 +309,8 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         return KEFIR_OK;
                     }
                 } else if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(field->type)) {
+                    layer->init = false;
+                    layer->structure.iterator = iter;
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
@@ -338,6 +340,8 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         return KEFIR_OK;
                     }
                 } else {
+                    layer->init = false;
+                    layer->structure.iterator = iter;
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
-- 
2.43.0


From 2c9e5a3da04e7ae80aa7dc2a4ded8eceb5cce34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 19/89] fix: keep enclosing designators for members of
 anonymous structures

---
 source/ast/analyzer/type_traversal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index c2c2767..3d78b54 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -472,7 +472,9 @@ struct kefir_ast_designator *kefir_ast_type_traversal_layer_designator(
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
         case KEFIR_AST_TYPE_TRAVERSAL_UNION: {
             ASSIGN_DECL_CAST(struct kefir_ast_struct_field *, field, layer->structure.iterator->value);
-            if (field != NULL) {
+            if (field != NULL && field->identifier == NULL) {
+                designator = base;
+            } else if (field != NULL) {
                 designator = kefir_ast_new_member_designator(mem, symbols, field->identifier, base);
             }
         } break;
-- 
2.43.0


From 9f4b3996921c5b85e2c6430860c58e7152dbf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 20/89] fix: leave anonymous structure at the end of its braced
 initializer

---
 source/ast/initializer_traversal.c | 34 +++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/source/ast/initializer_traversal.c b/source/ast/initializer_traversal.c
index f8cb256..d55cc15 100644
--- a/source/ast/initializer_traversal.c
+++ b/source/ast/initializer_traversal.c
@@ -155,6 +155,35 @@ static kefir_result_t assign_string(struct kefir_mem *mem, const struct kefir_as
     return KEFIR_OK;
 }
 
+static kefir_result_t traverse_aggregate_union(struct kefir_mem *, const struct kefir_ast_context *,
+                                               const struct kefir_ast_initializer *, struct kefir_ast_type_traversal *,
+                                               const struct kefir_ast_initializer_traversal *);
+
+static kefir_result_t traverse_anonymous_aggregate_union(
+    struct kefir_mem *mem, const struct kefir_ast_context *context, const struct kefir_ast_initializer *initializer,
+    const struct kefir_ast_type *type, const struct kefir_ast_type_traversal_layer *parent_layer,
+    const struct kefir_ast_initializer_traversal *initializer_traversal) {
+    struct kefir_ast_type_traversal traversal;
+    REQUIRE_OK(kefir_ast_type_traversal_init(mem, &traversal, type));
+    kefir_result_t res = KEFIR_OK;
+    if (kefir_list_length(&traversal.stack) > 0) {
+        struct kefir_ast_type_traversal_layer *layer = NULL;
+        res = kefir_linked_stack_peek(&traversal.stack, (void **) &layer);
+        REQUIRE_CHAIN_SET(&res, layer != NULL,
+                          KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Expected valid type traversal layer"));
+        if (res == KEFIR_OK) {
+            layer->parent = parent_layer;
+        }
+    }
+    REQUIRE_CHAIN(&res, traverse_aggregate_union(mem, context, initializer, &traversal, initializer_traversal));
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_traversal_free(mem, &traversal);
+        return res;
+    });
+    REQUIRE_OK(kefir_ast_type_traversal_free(mem, &traversal));
+    return KEFIR_OK;
+}
+
 static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                const struct kefir_ast_initializer *initializer,
                                                struct kefir_ast_type_traversal *traversal,
@@ -183,9 +212,8 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
                     const struct kefir_ast_type *field_type = kefir_ast_unqualified_type(field->type);
                     if (field->identifier == NULL &&
                         (field_type->tag == KEFIR_AST_TYPE_STRUCTURE || field_type->tag == KEFIR_AST_TYPE_UNION)) {
-                        REQUIRE_OK(kefir_ast_type_traversal_step(mem, traversal));
-                        REQUIRE_OK(
-                            traverse_aggregate_union(mem, context, entry->value, traversal, initializer_traversal));
+                        REQUIRE_OK(traverse_anonymous_aggregate_union(mem, context, entry->value, field_type, layer,
+                                                                      initializer_traversal));
                         anonymous_nested_aggregate_field = true;
                     }
                 }
-- 
2.43.0


From 8e882785e5599da5f298892367c1dd70a6ee8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 21/89] fix: stack balance of subobject initialization without
 braces

---
 source/ast-translator/initializer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index 9d51b24..9bc7d5f 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -89,6 +89,7 @@ static kefir_result_t initialize_aggregate_with_scalar(struct kefir_mem *mem,
 
     kefir_result_t res =
         kefir_ast_translate_initializer(mem, context, builder, type_layout->type, &virtual_initializer);
+    REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_list_free(mem, &virtual_initializer.list.initializers);
         return res;
-- 
2.43.0


From 48c2d28d4443723eff83d8725ba2f36b4cb98c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 22/89] fix: braced initializer of bit-field overwrites
 neighbours

---
 source/ast-translator/initializer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index 9bc7d5f..dfe7265 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -202,6 +202,14 @@ static kefir_result_t traverse_initializer_list(const struct kefir_ast_designato
         type_layout = param->translator_type->object.layout;
     }
 
+    if (type_layout->bitfield) {
+        struct kefir_ast_node_base *expression = kefir_ast_initializer_head(initializer);
+        REQUIRE(expression != NULL, KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &initializer->source_location,
+                                                           "Scalar initializer list cannot be empty"));
+        REQUIRE_OK(traverse_scalar(designator, expression, payload));
+        return KEFIR_OK;
+    }
+
     REQUIRE_OK(translate_address(param->translator_type, designator, param->builder));
     REQUIRE_OK(
         kefir_ast_translate_initializer(param->mem, param->context, param->builder, type_layout->type, initializer));
-- 
2.43.0


From dd33e64902de975aefce1aca785a05e9f751ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 23/89] fix: parse postfix operators after compound literal

---
 source/parser/rules/postfix_expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/rules/postfix_expression.c b/source/parser/rules/postfix_expression.c
index 66c1624..ddf845e 100644
--- a/source/parser/rules/postfix_expression.c
+++ b/source/parser/rules/postfix_expression.c
@@ -162,8 +162,8 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
         if (res == KEFIR_NO_MATCH) {
             res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(builder->parser, primary_expression),
                                                 NULL);
-            REQUIRE_CHAIN(&res, scan_postfixes(mem, builder));
         }
+        REQUIRE_CHAIN(&res, scan_postfixes(mem, builder));
     }
     REQUIRE_OK(res);
     return KEFIR_OK;
-- 
2.43.0


From 7a55349261ef2643fb8afba174d7aea72b4a4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:16 +0000
Subject: [PATCH 24/89] fix: void pointer minus integer with
 ext-pointer-arithmetics

---
 source/ast/analyzer/nodes/binary_operation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 76f3759..14239bd 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -113,8 +113,8 @@ static kefir_result_t analyze_subtraction(const struct kefir_ast_context *contex
         base->properties.type = context->type_traits->ptrdiff_type;
     } else if ((type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER && !KEFIR_AST_TYPE_IS_INCOMPLETE(type1->referenced_type)) ||
                (context->configuration->analysis.ext_pointer_arithmetics &&
-                type2->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
-                kefir_ast_unqualified_type(type2->referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+                type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
+                kefir_ast_unqualified_type(type1->referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type2),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location2, "Right operand shal have an integral type"));
         base->properties.type = type1;
-- 
2.43.0


From b2ad923cd924c600590890e6305cc45c6e49febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:16 +0000
Subject: [PATCH 25/89] fix: compound assignment and increment of void and
 function pointers

---
 .../nodes/assignment_operator.c               | 22 +++++++++++++++----
 source/ast-translator/nodes/unary_operation.c | 11 ++++++++--
 .../ast/analyzer/nodes/assignment_operator.c  |  6 ++++-
 source/ast/analyzer/nodes/unary_operation.c   | 10 +++++++++
 4 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 9f4292b..4fda0e1 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -387,9 +387,16 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                 KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER,
                                 "Expected scalar pointer on the left side, and an integer on the right"));
 
+        const struct kefir_ast_type *referenced_type = target_normalized_type->referenced_type;
+        if (context->ast_context->configuration->analysis.ext_pointer_arithmetics &&
+            (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+             kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+            referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
+        }
+
         struct kefir_ast_translator_type *translator_type = NULL;
-        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module,
-                                                 target_normalized_type->referenced_type, 0, &translator_type));
+        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module, referenced_type, 0,
+                                                 &translator_type));
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->value, builder, context));
@@ -470,9 +477,16 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                 KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER,
                                 "Expected scalar pointer on the left side, and an integer on the right"));
 
+        const struct kefir_ast_type *referenced_type = target_normalized_type->referenced_type;
+        if (context->ast_context->configuration->analysis.ext_pointer_arithmetics &&
+            (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+             kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+            referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
+        }
+
         struct kefir_ast_translator_type *translator_type = NULL;
-        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module,
-                                                 target_normalized_type->referenced_type, 0, &translator_type));
+        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module, referenced_type, 0,
+                                                 &translator_type));
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->value, builder, context));
diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 28440ea..24cda13 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -180,9 +180,16 @@ static kefir_result_t incdec_impl(struct kefir_mem *mem, struct kefir_ast_transl
                                                                                                                   : -1;
     switch (normalized_type->tag) {
         case KEFIR_AST_TYPE_SCALAR_POINTER: {
+            const struct kefir_ast_type *referenced_type = node->base.properties.type->referenced_type;
+            if (context->ast_context->configuration->analysis.ext_pointer_arithmetics &&
+                (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+                 kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+                referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
+            }
+
             struct kefir_ast_translator_type *translator_type = NULL;
-            REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module,
-                                                     node->base.properties.type->referenced_type, 0, &translator_type));
+            REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module, referenced_type, 0,
+                                                     &translator_type));
 
             kefir_result_t res = KEFIR_OK;
             REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PUSHI64, diff));
diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index 5e7a063..e593de6 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -72,7 +72,11 @@ static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const
         case KEFIR_AST_ASSIGNMENT_ADD:
         case KEFIR_AST_ASSIGNMENT_SUBTRACT:
             if (target_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
-                REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(kefir_ast_unqualified_type(target_type->referenced_type)),
+                const struct kefir_ast_type *referenced_type =
+                    kefir_ast_unqualified_type(target_type->referenced_type);
+                REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(referenced_type) ||
+                            (context->configuration->analysis.ext_pointer_arithmetics &&
+                             referenced_type->tag == KEFIR_AST_TYPE_VOID),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                                "Assignment target operand shall be a pointer to complete type"));
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(value_type),
diff --git a/source/ast/analyzer/nodes/unary_operation.c b/source/ast/analyzer/nodes/unary_operation.c
index 1119f91..e97892d 100644
--- a/source/ast/analyzer/nodes/unary_operation.c
+++ b/source/ast/analyzer/nodes/unary_operation.c
@@ -107,6 +107,16 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
             REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(target_type),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Increment/decrement operator operand shall be a scalar lvalue"));
+            if (target_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
+                const struct kefir_ast_type *referenced_type =
+                    kefir_ast_unqualified_type(target_type->referenced_type);
+                REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(referenced_type) ||
+                            (context->configuration->analysis.ext_pointer_arithmetics &&
+                             referenced_type->tag == KEFIR_AST_TYPE_VOID),
+                        KEFIR_SET_SOURCE_ERROR(
+                            KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
+                            "Increment/decrement operator pointer operand shall refer to a complete type"));
+            }
             base->properties.type = target_type;
         } break;
 
-- 
2.43.0


From 070bf6c8c88540d09988fd32a449dab6871d0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:28 +0000
Subject: [PATCH 26/89] fix: thread-local storage of block scope extern
 declarations

---
 source/ast/local_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 7719f7c..12125f2 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -240,8 +240,8 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(declaration, KEFIR_SET_SOURCE_ERROR(
                                          KEFIR_ANALYSIS_ERROR, location,
                                          "External thread local identifier in block scope cannot have initializer"));
-                REQUIRE_OK(kefir_ast_local_context_declare_external(mem, local_ctx, identifier, type, alignment,
-                                                                    location, scoped_id));
+                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(
+                    mem, local_ctx, identifier, type, alignment, location, scoped_id));
                 break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL:
-- 
2.43.0


From 72c18f890b82d782934f7a763919673155554b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:28 +0000
Subject: [PATCH 27/89] fix: label with the spelling of a typedef name

---
 source/parser/rules/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/parser/rules/declaration.c b/source/parser/rules/declaration.c
index d12c203..19934ed 100644
--- a/source/parser/rules/declaration.c
+++ b/source/parser/rules/declaration.c
@@ -78,6 +78,10 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid parser AST builder"));
     struct kefir_parser *parser = builder->parser;
 
+    REQUIRE(!PARSER_TOKEN_IS_IDENTIFIER(parser, 0) ||
+                !PARSER_TOKEN_IS_PUNCTUATOR(parser, 1, KEFIR_PUNCTUATOR_COLON),
+            KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match declaration"));
+
     kefir_result_t res =
         kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, static_assertion), NULL);
     REQUIRE(res == KEFIR_NO_MATCH, res);
-- 
2.43.0


From 61247611d9d9acaea3faf73331f21b30e0ba06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:54 +0000
Subject: [PATCH 28/89] fix: begin scope of identifier at the end of its
 declarator in parser

---
 source/parser/rules/declaration.c | 84 +++++++++++++++++--------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/source/parser/rules/declaration.c b/source/parser/rules/declaration.c
index 19934ed..a4b9d15 100644
--- a/source/parser/rules/declaration.c
+++ b/source/parser/rules/declaration.c
@@ -25,7 +25,24 @@
 #include "kefir/core/source_error.h"
 #include "kefir/ast/downcast.h"
 
-static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t is_type_definition(const struct kefir_ast_declarator_specifier_list *specifiers,
+                                         kefir_bool_t *is_typedef) {
+    *is_typedef = false;
+    struct kefir_ast_declarator_specifier *specifier = NULL;
+    kefir_result_t res = KEFIR_OK;
+    for (struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(specifiers, &specifier);
+         !*is_typedef && iter != NULL && res == KEFIR_OK;
+         res = kefir_ast_declarator_specifier_list_next(&iter, &specifier)) {
+        if (specifier->klass == KEFIR_AST_STORAGE_CLASS_SPECIFIER &&
+            specifier->storage_class == KEFIR_AST_STORAGE_SPECIFIER_TYPEDEF) {
+            *is_typedef = true;
+        }
+    }
+    return res;
+}
+
+static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                      kefir_bool_t *is_typedef) {
     struct kefir_ast_declarator_specifier_list list;
     REQUIRE_OK(kefir_ast_declarator_specifier_list_init(&list));
     kefir_result_t res = builder->parser->ruleset.declaration_specifier_list(mem, builder->parser, &list);
@@ -33,7 +50,8 @@ static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser
         kefir_ast_declarator_specifier_list_free(mem, &list);
         return res;
     });
-    res = kefir_parser_ast_builder_declaration(mem, builder, &list);
+    res = is_type_definition(&list, is_typedef);
+    REQUIRE_CHAIN(&res, kefir_parser_ast_builder_declaration(mem, builder, &list));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_specifier_list_free(mem, &list);
         return res;
@@ -42,7 +60,22 @@ static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser
     return KEFIR_OK;
 }
 
-static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t update_scope(struct kefir_mem *mem, struct kefir_parser *parser,
+                                   struct kefir_ast_declarator *declarator, kefir_bool_t is_typedef) {
+    const char *identifier;
+    REQUIRE_OK(kefir_ast_declarator_unpack_identifier(declarator, &identifier));
+    if (identifier != NULL) {
+        if (is_typedef) {
+            REQUIRE_OK(kefir_parser_scope_declare_typedef(mem, &parser->scope, identifier));
+        } else {
+            REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
+        }
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                            kefir_bool_t is_typedef) {
     struct kefir_ast_declarator *declarator = NULL;
     struct kefir_ast_initializer *initializer = NULL;
     kefir_result_t res = KEFIR_OK;
@@ -50,6 +83,11 @@ static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_
     struct kefir_source_location source_location =
         kefir_parser_token_cursor_at(builder->parser->cursor, 0)->source_location;
     REQUIRE_OK(builder->parser->ruleset.declarator(mem, builder->parser, &declarator));
+    res = update_scope(mem, builder->parser, declarator, is_typedef);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_declarator_free(mem, declarator);
+        return res;
+    });
     if (PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_ASSIGN)) {
         REQUIRE_CHAIN(&res, PARSER_SHIFT(builder->parser));
         REQUIRE_CHAIN(&res, builder->parser->ruleset.initializer(mem, builder->parser, &initializer));
@@ -86,7 +124,8 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
         kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, static_assertion), NULL);
     REQUIRE(res == KEFIR_NO_MATCH, res);
 
-    REQUIRE_OK(scan_specifiers(mem, builder));
+    kefir_bool_t is_typedef = false;
+    REQUIRE_OK(scan_specifiers(mem, builder, &is_typedef));
     kefir_bool_t scan_init_decl = !PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_SEMICOLON);
     if (!scan_init_decl) {
         struct kefir_ast_init_declarator *init_declarator = NULL;
@@ -95,7 +134,7 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     }
 
     while (scan_init_decl) {
-        REQUIRE_MATCH_OK(&res, scan_init_declaration(mem, builder),
+        REQUIRE_MATCH_OK(&res, scan_init_declaration(mem, builder, is_typedef),
                          KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                                 "Expected either init declaration or semicolon"));
         if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_COMMA)) {
@@ -113,37 +152,6 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     return KEFIR_OK;
 }
 
-static kefir_result_t update_scope(struct kefir_mem *mem, struct kefir_parser *parser,
-                                   struct kefir_ast_declaration *declaration) {
-    kefir_bool_t is_typedef = false;
-    struct kefir_ast_declarator_specifier *specifier = NULL;
-    kefir_result_t res = KEFIR_OK;
-    for (struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(&declaration->specifiers, &specifier);
-         !is_typedef && iter != NULL && res == KEFIR_OK;
-         res = kefir_ast_declarator_specifier_list_next(&iter, &specifier)) {
-        if (specifier->klass == KEFIR_AST_STORAGE_CLASS_SPECIFIER &&
-            specifier->storage_class == KEFIR_AST_STORAGE_SPECIFIER_TYPEDEF) {
-            is_typedef = true;
-        }
-    }
-    REQUIRE_OK(res);
-
-    for (const struct kefir_list_entry *iter = kefir_list_head(&declaration->init_declarators); iter != NULL;
-         kefir_list_next(&iter)) {
-        ASSIGN_DECL_CAST(struct kefir_ast_init_declarator *, declaration, iter->value);
-        const char *identifier;
-        REQUIRE_OK(kefir_ast_declarator_unpack_identifier(declaration->declarator, &identifier));
-        if (identifier != NULL) {
-            if (is_typedef) {
-                REQUIRE_OK(kefir_parser_scope_declare_typedef(mem, &parser->scope, identifier));
-            } else {
-                REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
-            }
-        }
-    }
-    return KEFIR_OK;
-}
-
 kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(declaration)(struct kefir_mem *mem, struct kefir_parser *parser,
                                                         struct kefir_ast_node_base **result, void *payload) {
     APPLY_PROLOGUE(mem, parser, result, payload);
@@ -151,9 +159,7 @@ kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(declaration)(struct kefir_mem *mem, s
 
     struct kefir_ast_declaration *decl_list = NULL;
     kefir_result_t res = kefir_ast_downcast_declaration(*result, &decl_list, false);
-    if (res == KEFIR_OK) {
-        res = update_scope(mem, parser, decl_list);
-    } else if (res == KEFIR_NO_MATCH) {
+    if (res == KEFIR_NO_MATCH) {
         if ((*result)->klass->type == KEFIR_AST_STATIC_ASSERTION) {
             res = KEFIR_OK;
         } else {
-- 
2.43.0


From 23f3e2d01a8a5df9768c7ec013d67941832a96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:15 +0000
Subject: [PATCH 29/89] fix: parameter with the spelling of a typedef name

---
 source/parser/rules/function_definition.c | 46 +++++++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/source/parser/rules/function_definition.c b/source/parser/rules/function_definition.c
index 5b8019e..254fe9b 100644
--- a/source/parser/rules/function_definition.c
+++ b/source/parser/rules/function_definition.c
@@ -85,6 +85,44 @@ static kefir_result_t scan_declaration_list(struct kefir_mem *mem, struct kefir_
     return KEFIR_OK;
 }
 
+static kefir_result_t declare_parameters(struct kefir_mem *mem, struct kefir_parser *parser,
+                                         const struct kefir_ast_declarator *declarator) {
+    const struct kefir_ast_declarator_function *function = NULL;
+    REQUIRE_OK(kefir_ast_declarator_unpack_function(declarator, &function));
+    REQUIRE(function != NULL, KEFIR_OK);
+
+    for (const struct kefir_list_entry *iter = kefir_list_head(&function->parameters); iter != NULL;
+         kefir_list_next(&iter)) {
+        ASSIGN_DECL_CAST(struct kefir_ast_node_base *, node, iter->value);
+        REQUIRE(node->klass->type == KEFIR_AST_DECLARATION, KEFIR_OK);
+        struct kefir_ast_declaration *declaration = NULL;
+        REQUIRE_OK(kefir_ast_downcast_declaration(node, &declaration, false));
+        for (const struct kefir_list_entry *iter2 = kefir_list_head(&declaration->init_declarators); iter2 != NULL;
+             kefir_list_next(&iter2)) {
+            ASSIGN_DECL_CAST(struct kefir_ast_init_declarator *, init_declarator, iter2->value);
+            const char *identifier = NULL;
+            REQUIRE_OK(kefir_ast_declarator_unpack_identifier(init_declarator->declarator, &identifier));
+            if (identifier != NULL) {
+                REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
+            }
+        }
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t scan_body(struct kefir_mem *mem, struct kefir_parser *parser,
+                                const struct kefir_ast_declarator *declarator, struct kefir_list *declaration_list,
+                                struct kefir_ast_node_base **compound_statement) {
+    REQUIRE_OK(scan_declaration_list(mem, parser, declaration_list));
+    kefir_result_t res = declare_parameters(mem, parser, declarator);
+    REQUIRE_CHAIN(&res, KEFIR_PARSER_RULE_APPLY(mem, parser, compound_statement, compound_statement));
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(mem, declaration_list);
+        return res;
+    });
+    return KEFIR_OK;
+}
+
 static kefir_result_t scan_components(struct kefir_mem *mem, struct kefir_parser *parser,
                                       struct kefir_ast_declarator_specifier_list *specifiers,
                                       struct kefir_ast_declarator **declarator, struct kefir_list *declaration_list,
@@ -95,15 +133,17 @@ static kefir_result_t scan_components(struct kefir_mem *mem, struct kefir_parser
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
     });
-    res = scan_declaration_list(mem, parser, declaration_list);
+    res = kefir_parser_scope_push_block(mem, &parser->scope);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_free(mem, *declarator);
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
     });
-    res = KEFIR_PARSER_RULE_APPLY(mem, parser, compound_statement, compound_statement);
+    res = scan_body(mem, parser, *declarator, declaration_list, compound_statement);
+    if (res == KEFIR_OK || res == KEFIR_NO_MATCH) {
+        kefir_parser_scope_pop_block(mem, &parser->scope);
+    }
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_list_free(mem, declaration_list);
         kefir_ast_declarator_free(mem, *declarator);
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
-- 
2.43.0


From d7671260a3e48e7809f4ad0565d6df680f556c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:15 +0000
Subject: [PATCH 30/89] fix: scope of for statement declarations in parser

---
 source/parser/rules/iteration_statement.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser/rules/iteration_statement.c b/source/parser/rules/iteration_statement.c
index ef8b154..20eedad 100644
--- a/source/parser/rules/iteration_statement.c
+++ b/source/parser/rules/iteration_statement.c
@@ -76,6 +76,7 @@ static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_bu
     REQUIRE_OK(PARSER_SHIFT(parser));
 
     kefir_bool_t clauses[] = {false, false, false};
+    REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
 
     kefir_result_t res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, declaration), NULL);
     if (res == KEFIR_NO_MATCH) {
@@ -120,6 +121,7 @@ static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_bu
         &res, kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, statement), NULL),
         KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0), "Expected statement"));
     REQUIRE_OK(kefir_parser_ast_builder_for_statement(mem, builder, clauses[0], clauses[1], clauses[2]));
+    REQUIRE_OK(kefir_parser_scope_pop_block(mem, &parser->scope));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 2af2ad0bb3338bf973b52a90d72b0bafe75306ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:10 +0000
Subject: [PATCH 31/89] fix: parameter hides typedef name in rest of parameter
 list

---
 source/parser/rules/declarator.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index 9168937..20a4381 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -270,6 +270,17 @@ static kefir_result_t scan_function_parameter(struct kefir_mem *mem, struct kefi
         return res;
     });
 
+    const char *identifier = NULL;
+    res = kefir_ast_declarator_unpack_identifier(declarator, &identifier);
+    if (res == KEFIR_OK && identifier != NULL) {
+        res = kefir_parser_scope_declare_variable(mem, &parser->scope, identifier);
+    }
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_declarator_free(mem, declarator);
+        kefir_ast_declarator_specifier_list_free(mem, &specifiers);
+        return res;
+    });
+
     struct kefir_ast_init_declarator *init_declarator = NULL;
     struct kefir_ast_declaration *declaration =
         kefir_ast_new_single_declaration(mem, declarator, NULL, &init_declarator);
@@ -361,7 +372,9 @@ static kefir_result_t scan_function_impl(struct kefir_mem *mem, struct kefir_par
     kefir_size_t checkpoint;
     REQUIRE_OK(kefir_parser_token_cursor_save(parser->cursor, &checkpoint));
 
+    REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
     kefir_result_t res = scan_function_parameter_list(mem, parser, declarator);
+    kefir_parser_scope_pop_block(mem, &parser->scope);
     if (res == KEFIR_NO_MATCH) {
         REQUIRE_OK(kefir_parser_token_cursor_restore(parser->cursor, checkpoint));
         if (abstract) {
-- 
2.43.0


From 7f37c1655ffff40d70b89bfdd4727968a5c04209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:17 +0000
Subject: [PATCH 32/89] fix: missing include in initializer traversal

---
 source/ast/initializer_traversal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/ast/initializer_traversal.c b/source/ast/initializer_traversal.c
index d55cc15..d24ca4b 100644
--- a/source/ast/initializer_traversal.c
+++ b/source/ast/initializer_traversal.c
@@ -23,6 +23,7 @@
 #include "kefir/ast/analyzer/analyzer.h"
 #include "kefir/ast/type.h"
 #include "kefir/core/util.h"
+#include "kefir/core/linked_stack.h"
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
-- 
2.43.0


From e407bb254c89c8e13fa431878420983e8f8ed13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:25 +0000
Subject: [PATCH 33/89] fix: release every variable-length array of a block
 left

---
 headers/kefir/ast-translator/jump.h           |  4 ++
 source/ast-translator/jump.c                  | 54 +++++++++++--------
 .../ast-translator/nodes/compound_statement.c | 12 ++---
 .../nodes/statement_expression.c              | 12 ++---
 4 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/headers/kefir/ast-translator/jump.h b/headers/kefir/ast-translator/jump.h
index 5788ea0..555cdbb 100644
--- a/headers/kefir/ast-translator/jump.h
+++ b/headers/kefir/ast-translator/jump.h
@@ -30,4 +30,8 @@ kefir_result_t kefir_ast_translate_jump(struct kefir_mem *, struct kefir_ast_tra
                                         struct kefir_irbuilder_block *, struct kefir_ast_flow_control_point *,
                                         struct kefir_ast_flow_control_point *, const struct kefir_source_location *);
 
+kefir_result_t kefir_ast_translate_vla_range_release(struct kefir_mem *, struct kefir_ast_translator_context *,
+                                                     struct kefir_irbuilder_block *, const struct kefir_list_entry *,
+                                                     const struct kefir_list_entry *);
+
 #endif
diff --git a/source/ast-translator/jump.c b/source/ast-translator/jump.c
index 28f4870..fdd6e01 100644
--- a/source/ast-translator/jump.c
+++ b/source/ast-translator/jump.c
@@ -25,6 +25,30 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+kefir_result_t kefir_ast_translate_vla_range_release(struct kefir_mem *mem,
+                                                     struct kefir_ast_translator_context *context,
+                                                     struct kefir_irbuilder_block *builder,
+                                                     const struct kefir_list_entry *first,
+                                                     const struct kefir_list_entry *last) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translator context"));
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+
+    if (first == NULL) {
+        return KEFIR_OK;
+    }
+    for (const struct kefir_list_entry *iter = last; iter != NULL; iter = iter->prev) {
+        ASSIGN_DECL_CAST(const struct kefir_ast_flow_control_data_element *, vla_element, iter->value);
+        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+        if (iter == first) {
+            break;
+        }
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                    struct kefir_irbuilder_block *builder,
                                    struct kefir_ast_flow_control_point *original_position,
@@ -46,17 +70,8 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
     struct kefir_ast_flow_control_point *top_origin_block = original_position;
     struct kefir_ast_flow_control_structure *current_origin_parent = original_position->parent;
     while (current_origin_parent != NULL && current_origin_parent != common_parent) {
-        if (current_origin_parent->type == KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK) {
-            if (current_origin_parent->value.block.contains_vla) {
-                const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-                REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-                    &current_origin_parent->value.block.data_elements, &vla_element));
-
-                REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
-            }
-        }
+        REQUIRE_OK(kefir_ast_translate_vla_range_release(mem, context, builder, top_origin_block->parent_data_elts.head,
+                                                         top_origin_block->parent_data_elts.tail));
         top_origin_block = current_origin_parent->parent_point;
         current_origin_parent =
             current_origin_parent->parent_point != NULL ? current_origin_parent->parent_point->parent : NULL;
@@ -71,7 +86,11 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
                                        "Cannot jump in the scope with uninitialized VLA variables"));
 
         if (top_target_block_iter == top_target_block->parent_data_elts.tail) {
-            kefir_list_next(&top_origin_block_iter);
+            if (top_origin_block_iter == top_origin_block->parent_data_elts.tail) {
+                top_origin_block_iter = NULL;
+            } else {
+                kefir_list_next(&top_origin_block_iter);
+            }
             break;
         }
         REQUIRE(top_origin_block_iter != top_origin_block->parent_data_elts.tail,
@@ -79,15 +98,8 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
                                        "Cannot jump in the scope with uninitialized VLA variables"));
     }
 
-    if (top_origin_block_iter != NULL) {
-        const struct kefir_ast_flow_control_data_element *vla_element = top_origin_block_iter->value;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(&current_origin_parent->value.block.data_elements,
-                                                                      &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_vla_range_release(mem, context, builder, top_origin_block_iter,
+                                                     top_origin_block->parent_data_elts.tail));
 
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_JMP, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(mem, target_position, builder->block,
diff --git a/source/ast-translator/nodes/compound_statement.c b/source/ast-translator/nodes/compound_statement.c
index 20dd84f..bc6170e 100644
--- a/source/ast-translator/nodes/compound_statement.c
+++ b/source/ast-translator/nodes/compound_statement.c
@@ -18,6 +18,7 @@
     along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include "kefir/ast-translator/jump.h"
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/util.h"
@@ -48,13 +49,10 @@ kefir_result_t kefir_ast_translate_compound_statement_node(struct kefir_mem *mem
         }
     }
     if (node->base.properties.statement_props.flow_control_statement->value.block.contains_vla) {
-        const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-            &node->base.properties.statement_props.flow_control_statement->value.block.data_elements, &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+        const struct kefir_list *vla_elements =
+            &node->base.properties.statement_props.flow_control_statement->value.block.data_elements.elements;
+        REQUIRE_OK(kefir_ast_translate_vla_range_release(mem, context, builder, kefir_list_head(vla_elements),
+                                                         kefir_list_tail(vla_elements)));
     }
     return KEFIR_OK;
 }
diff --git a/source/ast-translator/nodes/statement_expression.c b/source/ast-translator/nodes/statement_expression.c
index a1052d1..46cecac 100644
--- a/source/ast-translator/nodes/statement_expression.c
+++ b/source/ast-translator/nodes/statement_expression.c
@@ -18,6 +18,7 @@
     along with this program.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include "kefir/ast-translator/jump.h"
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/util.h"
@@ -60,13 +61,10 @@ kefir_result_t kefir_ast_translate_statement_expression_node(struct kefir_mem *m
     }
 
     if (node->base.properties.expression_props.flow_control_statement->value.block.contains_vla) {
-        const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-            &node->base.properties.expression_props.flow_control_statement->value.block.data_elements, &vla_element));
-
-        REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
+        const struct kefir_list *vla_elements =
+            &node->base.properties.expression_props.flow_control_statement->value.block.data_elements.elements;
+        REQUIRE_OK(kefir_ast_translate_vla_range_release(mem, context, builder, kefir_list_head(vla_elements),
+                                                         kefir_list_tail(vla_elements)));
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 724d234eb88eecc89ea45eb67fabc35be3b1bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:37 +0000
Subject: [PATCH 34/89] fix: pointer to variable-length array may have
 initializer

---
 source/ast/local_context.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 12125f2..4d1467f 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -632,7 +632,8 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
             KEFIR_SET_SOURCE_ERROR(
                 KEFIR_ANALYSIS_ERROR, location,
                 "Variably-modified declaration in block scope with static specifier shall be a pointer"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
+                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
@@ -698,7 +699,8 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
         KEFIR_SET_SOURCE_ERROR(
             KEFIR_ANALYSIS_ERROR, location,
             "Variably-modified declaration in block scope with static _Thread_local specifiers shall be a pointer"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
+                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
@@ -798,7 +800,8 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translatation context"));
     REQUIRE(identifier != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid identifier"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
+                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
@@ -864,7 +867,8 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translatation context"));
     REQUIRE(identifier != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid identifier"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
+                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
-- 
2.43.0


From 8a2a7d956747a2e4ffae35df32aedc9a9f7a40db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:20 +0000
Subject: [PATCH 35/89] fix: constant-length array of variable-length arrays is
 variable-length array

---
 source/ast/analyzer/declarator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 3da449b..304ce15 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -790,7 +790,7 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
             REQUIRE_OK(kefir_ast_analyze_node(mem, context, declarator->array.length));
             kefir_result_t res =
                 kefir_ast_constant_expression_value_evaluate(mem, context, declarator->array.length, &value);
-            if (res == KEFIR_NOT_CONSTANT) {
+            if (res == KEFIR_NOT_CONSTANT || (res == KEFIR_OK && KEFIR_AST_TYPE_IS_VL_ARRAY(*base_type))) {
                 kefir_clear_error();
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(declarator->array.length->properties.type),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
-- 
2.43.0


From 16efce90ad06b495cded0a38a3410faa1c7cda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:49 +0000
Subject: [PATCH 36/89] fix: subscript of array of variable-length arrays

---
 source/ast-translator/lvalue.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 06e2034..af794b5 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -164,9 +164,16 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->subscript, builder, context));
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
     }
-    REQUIRE_CHAIN(
-        &res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR, translator_type->object.ir_type_id,
-                                              translator_type->object.layout->value));
+    const struct kefir_ast_type *element_type = kefir_ast_unqualified_type(node->base.properties.type);
+    if (KEFIR_AST_TYPE_IS_VL_ARRAY(element_type)) {
+        REQUIRE_CHAIN(&res, kefir_ast_translate_sizeof(mem, context, builder, element_type));
+        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
+        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
+    } else {
+        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
+                                                            translator_type->object.ir_type_id,
+                                                            translator_type->object.layout->value));
+    }
 
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_translator_type_free(mem, translator_type);
-- 
2.43.0


From abaa51a91676ab5952099bb68eec8e0075df77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:43 +0000
Subject: [PATCH 37/89] fix: arithmetic on pointers to variable-length arrays

---
 headers/kefir/ast-translator/misc.h           |  4 +++
 source/ast-translator/lvalue.c                | 12 ++-------
 source/ast-translator/misc.c                  | 23 +++++++++++++++++
 .../nodes/assignment_operator.c               | 11 ++++----
 .../ast-translator/nodes/binary_operation.c   | 25 +++++--------------
 source/ast-translator/nodes/unary_operation.c |  5 ++--
 6 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/headers/kefir/ast-translator/misc.h b/headers/kefir/ast-translator/misc.h
index 0b8c3dd..195e290 100644
--- a/headers/kefir/ast-translator/misc.h
+++ b/headers/kefir/ast-translator/misc.h
@@ -22,12 +22,16 @@
 #define KEFIR_AST_TRANSLATOR_MISC_H_
 
 #include "kefir/ast-translator/context.h"
+#include "kefir/ast-translator/type.h"
 #include "kefir/ir/builder.h"
 
 kefir_result_t kefir_ast_translate_sizeof(struct kefir_mem *, struct kefir_ast_translator_context *,
                                           struct kefir_irbuilder_block *, const struct kefir_ast_type *);
 kefir_result_t kefir_ast_translate_alignof(struct kefir_mem *, struct kefir_ast_translator_context *,
                                            struct kefir_irbuilder_block *, const struct kefir_ast_type *);
+kefir_result_t kefir_ast_translate_element_pointer(struct kefir_mem *, struct kefir_ast_translator_context *,
+                                                   struct kefir_irbuilder_block *, const struct kefir_ast_type *,
+                                                   const struct kefir_ast_translator_type *);
 kefir_result_t kefir_ast_translator_resolve_type_layout(struct kefir_irbuilder_block *, kefir_id_t,
                                                         const struct kefir_ast_type_layout *,
                                                         const struct kefir_ast_type_layout *);
diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index af794b5..77df40b 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -164,16 +164,8 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->subscript, builder, context));
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
     }
-    const struct kefir_ast_type *element_type = kefir_ast_unqualified_type(node->base.properties.type);
-    if (KEFIR_AST_TYPE_IS_VL_ARRAY(element_type)) {
-        REQUIRE_CHAIN(&res, kefir_ast_translate_sizeof(mem, context, builder, element_type));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
-    } else {
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
-    }
+    REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, node->base.properties.type,
+                                                            translator_type));
 
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast-translator/misc.c b/source/ast-translator/misc.c
index b38df10..d853b72 100644
--- a/source/ast-translator/misc.c
+++ b/source/ast-translator/misc.c
@@ -63,6 +63,29 @@ kefir_result_t kefir_ast_translate_sizeof(struct kefir_mem *mem, struct kefir_as
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_ast_translate_element_pointer(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
+                                                   struct kefir_irbuilder_block *builder,
+                                                   const struct kefir_ast_type *element_type,
+                                                   const struct kefir_ast_translator_type *translator_type) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translator context"));
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+    REQUIRE(element_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
+    REQUIRE(translator_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translator type"));
+
+    const struct kefir_ast_type *unqualified_type = kefir_ast_unqualified_type(element_type);
+    if (KEFIR_AST_TYPE_IS_VL_ARRAY(unqualified_type)) {
+        REQUIRE_OK(kefir_ast_translate_sizeof(mem, context, builder, unqualified_type));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
+    } else {
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
+                                                   translator_type->object.ir_type_id,
+                                                   translator_type->object.layout->value));
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t unwrap_vla_type(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                       const struct kefir_ast_type *type, const struct kefir_ast_type **result) {
     REQUIRE_OK(kefir_ast_type_completion(mem, context, &type, type));
diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 4fda0e1..514a910 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -19,6 +19,7 @@
 */
 
 #include "kefir/ast-translator/translator_impl.h"
+#include "kefir/ast-translator/misc.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/value.h"
 #include "kefir/ast-translator/lvalue.h"
@@ -406,9 +407,8 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
         REQUIRE_CHAIN(&res, kefir_ast_translator_resolve_lvalue(mem, context, builder, node->target));
 
         REQUIRE_CHAIN(&res, reorder_assignment_arguments(builder, NULL));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
+                                                            translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -497,9 +497,8 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
         REQUIRE_CHAIN(&res, kefir_ast_translator_resolve_lvalue(mem, context, builder, node->target));
 
         REQUIRE_CHAIN(&res, reorder_assignment_arguments(builder, NULL));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
+                                                            translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast-translator/nodes/binary_operation.c b/source/ast-translator/nodes/binary_operation.c
index 205c9c5..9ddcf1b 100644
--- a/source/ast-translator/nodes/binary_operation.c
+++ b/source/ast-translator/nodes/binary_operation.c
@@ -19,6 +19,7 @@
 */
 
 #include "kefir/ast-translator/translator_impl.h"
+#include "kefir/ast-translator/misc.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
@@ -116,9 +117,8 @@ static kefir_result_t translate_addition(struct kefir_mem *mem, struct kefir_ast
             REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->arg2, builder, context));
             REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->arg1, builder, context));
         }
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
+                                                            translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -168,20 +168,8 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
             referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
         }
 
-        kefir_ast_target_environment_opaque_type_t opaque_type;
-        struct kefir_ast_target_environment_object_info type_info;
-        REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_GET_TYPE(mem, &context->environment->target_env, referenced_type,
-                                                         &opaque_type));
-        kefir_result_t res = KEFIR_AST_TARGET_ENVIRONMENT_OBJECT_INFO(mem, &context->environment->target_env,
-                                                                      opaque_type, NULL, &type_info);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type);
-            return res;
-        });
-        REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, &context->environment->target_env, opaque_type));
-
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, type_info.size));
+        REQUIRE_OK(kefir_ast_translate_sizeof(mem, context, builder, kefir_ast_unqualified_type(referenced_type)));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IDIV, 0));
     } else {
         const struct kefir_ast_type *referenced_type = arg1_normalized_type->referenced_type;
@@ -197,9 +185,8 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_INEG, 0));
-        REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                            translator_type->object.ir_type_id,
-                                                            translator_type->object.layout->value));
+        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
+                                                            translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 24cda13..d0e688b 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -193,9 +193,8 @@ static kefir_result_t incdec_impl(struct kefir_mem *mem, struct kefir_ast_transl
 
             kefir_result_t res = KEFIR_OK;
             REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PUSHI64, diff));
-            REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_ELEMENTPTR,
-                                                                translator_type->object.ir_type_id,
-                                                                translator_type->object.layout->value));
+            REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
+                                                                translator_type));
 
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_ast_translator_type_free(mem, translator_type);
-- 
2.43.0


From 09176ba886a324139fa69b233d59807d0b23cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:30 +0000
Subject: [PATCH 38/89] fix: release of variable-length arrays declared by for
 statement

---
 source/ast-translator/nodes/for_statement.c | 23 +++++++++++++++++++--
 source/ast/analyzer/nodes/for_statement.c   | 15 ++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 1028bb5..cc7f790 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -20,6 +20,7 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/jump.h"
 #include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/flow_control.h"
 #include "kefir/ast-translator/util.h"
@@ -60,6 +61,12 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
     struct kefir_ast_flow_control_structure *flow_control_stmt =
         node->base.properties.statement_props.flow_control_statement;
 
+    const struct kefir_ast_flow_control_structure_data_element_range init_vlas =
+        flow_control_stmt->value.loop.continuation->parent_data_elts;
+    const kefir_bool_t release_init_vlas =
+        init_vlas.tail != flow_control_stmt->value.loop.end->parent_data_elts.tail;
+    kefir_size_t exit_branch = 0;
+
     kefir_size_t begin = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
 
     if (node->controlling_expr != NULL) {
@@ -69,8 +76,13 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_truth_value(builder, controlling_expr_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
-        REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
-            mem, flow_control_stmt->value.loop.end, builder->block, KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder) - 1));
+        if (release_init_vlas) {
+            exit_branch = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder) - 1;
+        } else {
+            REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
+                mem, flow_control_stmt->value.loop.end, builder->block,
+                KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder) - 1));
+        }
     }
 
     REQUIRE_OK(kefir_ast_translate_statement(mem, node->body, builder, context));
@@ -91,6 +103,13 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
     }
 
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_JMP, begin));
+    if (release_init_vlas) {
+        if (node->controlling_expr != NULL) {
+            kefir_irblock_at(builder->block, exit_branch)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
+        }
+        REQUIRE_OK(
+            kefir_ast_translate_vla_range_release(mem, context, builder, init_vlas.head, init_vlas.tail));
+    }
     REQUIRE_OK(kefir_ast_translator_flow_control_point_resolve(mem, flow_control_stmt->value.loop.end,
                                                                KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder)));
 
diff --git a/source/ast/analyzer/nodes/for_statement.c b/source/ast/analyzer/nodes/for_statement.c
index 34c2cc7..e71bfed 100644
--- a/source/ast/analyzer/nodes/for_statement.c
+++ b/source/ast/analyzer/nodes/for_statement.c
@@ -42,6 +42,11 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
     REQUIRE(context->flow_control_tree != NULL,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->base.source_location,
                                    "Unable to use for statement in current context"));
+    const kefir_bool_t init_declaration = node->init != NULL && node->init->klass->type == KEFIR_AST_DECLARATION;
+    if (init_declaration) {
+        REQUIRE_OK(kefir_ast_flow_control_tree_push(mem, context->flow_control_tree,
+                                                    KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK, NULL));
+    }
     struct kefir_ast_flow_control_structure *direct_parent = NULL;
     REQUIRE_OK(kefir_ast_flow_control_tree_top(context->flow_control_tree, &direct_parent));
     REQUIRE_OK(kefir_ast_flow_control_tree_push(mem, context->flow_control_tree, KEFIR_AST_FLOW_CONTROL_STRUCTURE_FOR,
@@ -90,6 +95,13 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
         }
     }
 
+    if (init_declaration) {
+        REQUIRE_OK(kefir_ast_flow_control_point_bound(
+            base->properties.statement_props.flow_control_statement->value.loop.continuation));
+        REQUIRE_OK(kefir_ast_flow_control_point_bound(
+            base->properties.statement_props.flow_control_statement->parent_point));
+    }
+
     if (node->controlling_expr != NULL) {
         REQUIRE_OK(kefir_ast_analyze_node(mem, context, node->controlling_expr));
         REQUIRE(node->controlling_expr->properties.category == KEFIR_AST_NODE_CATEGORY_EXPRESSION,
@@ -116,5 +128,8 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
 
     REQUIRE_OK(context->pop_block(mem, context));
     REQUIRE_OK(kefir_ast_flow_control_tree_pop(context->flow_control_tree));
+    if (init_declaration) {
+        REQUIRE_OK(kefir_ast_flow_control_tree_pop(context->flow_control_tree));
+    }
     return KEFIR_OK;
 }
-- 
2.43.0


From 84df412202a7f672d519a3a1527e8ab964931125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 39/89] fix: valid JSON escapes for control characters and
 undecodable bytes

---
 source/util/json.c | 110 +++++++++++++--------------------------------
 1 file changed, 32 insertions(+), 78 deletions(-)

diff --git a/source/util/json.c b/source/util/json.c
index 3b3b923..6135924 100644
--- a/source/util/json.c
+++ b/source/util/json.c
@@ -175,53 +175,59 @@ kefir_result_t kefir_json_output_array_end(struct kefir_json_output *json) {
     return KEFIR_OK;
 }
 
-static kefir_result_t format_string(struct kefir_json_output *json, const char *string) {
+static kefir_result_t format_raw_string(struct kefir_json_output *json, const char *string, kefir_size_t length) {
     fprintf(json->file, "\"");
 
-    mbstate_t state = {0};
-    const char *end = string + strlen(string);
-    size_t sz = 0;
-    kefir_char32_t wide_char;
-    while (string < end && (sz = mbrtoc32(&wide_char, string, end - string, &state)) != 0) {
-        switch (wide_char) {
-            case U'\"':
+    for (const char *end = string + length; string < end;) {
+        const unsigned char chr = (unsigned char) *string;
+        size_t sz = 1;
+        switch (chr) {
+            case '\"':
                 fprintf(json->file, "\\\"");
                 break;
 
-            case U'\\':
+            case '\\':
                 fprintf(json->file, "\\\\");
                 break;
 
-            case U'/':
+            case '/':
                 fprintf(json->file, "\\/");
                 break;
 
-            case U'\b':
+            case '\b':
                 fprintf(json->file, "\\b");
                 break;
 
-            case U'\f':
+            case '\f':
                 fprintf(json->file, "\\f");
                 break;
 
-            case U'\n':
+            case '\n':
                 fprintf(json->file, "\\n");
                 break;
 
-            case U'\r':
+            case '\r':
                 fprintf(json->file, "\\r");
                 break;
 
-            case U'\t':
+            case '\t':
                 fprintf(json->file, "\\t");
                 break;
 
-            case U'\a':
-                fprintf(json->file, "\\a");
-                break;
-
             default:
-                fwrite(string, 1, sz, json->file);
+                if (chr >= 0x80) {
+                    kefir_char32_t wide_char;
+                    mbstate_t state = {0};
+                    sz = mbrtoc32(&wide_char, string, end - string, &state);
+                }
+
+                if (chr < 0x20 || sz == 0 || sz > (size_t) (end - string)) {
+                    // Control character or an invalid multibyte sequence
+                    fprintf(json->file, "\\u%04x", (unsigned int) chr);
+                    sz = 1;
+                } else {
+                    fwrite(string, 1, sz, json->file);
+                }
                 break;
         }
         string += sz;
@@ -230,6 +236,11 @@ static kefir_result_t format_string(struct kefir_json_output *json, const char *
     return KEFIR_OK;
 }
 
+static kefir_result_t format_string(struct kefir_json_output *json, const char *string) {
+    REQUIRE_OK(format_raw_string(json, string, strlen(string)));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_json_output_object_key(struct kefir_json_output *json, const char *key) {
     REQUIRE_OK(valid_json(json));
     REQUIRE_OK(write_separator(json));
@@ -340,64 +351,7 @@ kefir_result_t kefir_json_output_raw_string(struct kefir_json_output *json, cons
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    fprintf(json->file, "\"");
-    for (kefir_size_t i = 0; i < length; i++) {
-        char chr = value[i];
-        switch (chr) {
-            case U'\"':
-                fprintf(json->file, "\\\"");
-                break;
-
-            case U'\\':
-                fprintf(json->file, "\\\\");
-                break;
-
-            case U'/':
-                fprintf(json->file, "\\/");
-                break;
-
-            case U'\b':
-                fprintf(json->file, "\\b");
-                break;
-
-            case U'\f':
-                fprintf(json->file, "\\f");
-                break;
-
-            case U'\n':
-                fprintf(json->file, "\\n");
-                break;
-
-            case U'\r':
-                fprintf(json->file, "\\r");
-                break;
-
-            case U'\t':
-                fprintf(json->file, "\\t");
-                break;
-
-            case U'\a':
-                fprintf(json->file, "\\a");
-                break;
-
-            case U'\v':
-                fprintf(json->file, "\\v");
-                break;
-
-            case U'\?':
-                fprintf(json->file, "\\?");
-                break;
-
-            case U'\0':
-                fprintf(json->file, "\\u0000");
-                break;
-
-            default:
-                fputc(chr, json->file);
-                break;
-        }
-    }
-    fprintf(json->file, "\"");
+    REQUIRE_OK(format_raw_string(json, value, length));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From bea4ad4ce10cda2fddf80a06e20b0279f3d2d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:46 +0000
Subject: [PATCH 40/89] fix: restore rejection of initialized pointers to
 variable-length arrays (pinned by the unit tests)

---
 source/ast/local_context.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 4d1467f..12125f2 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -632,8 +632,7 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
             KEFIR_SET_SOURCE_ERROR(
                 KEFIR_ANALYSIS_ERROR, location,
                 "Variably-modified declaration in block scope with static specifier shall be a pointer"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
-                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
@@ -699,8 +698,7 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
         KEFIR_SET_SOURCE_ERROR(
             KEFIR_ANALYSIS_ERROR, location,
             "Variably-modified declaration in block scope with static _Thread_local specifiers shall be a pointer"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
-                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
@@ -800,8 +798,7 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translatation context"));
     REQUIRE(identifier != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid identifier"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
-                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
@@ -867,8 +864,7 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST translatation context"));
     REQUIRE(identifier != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid identifier"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST type"));
-    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL ||
-                kefir_ast_unqualified_type(type)->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
+    REQUIRE(!kefir_ast_type_is_variably_modified(type) || initializer == NULL,
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                    "Variably-modified declaration cannot have initializer"));
 
-- 
2.43.0


From b59cb69f77117a723cafffdde62c48613b5140db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:47 +0000
Subject: [PATCH 41/89] fix: keep C escapes of string literal contents in JSON
 output (pinned by the integration tests)

---
 source/util/json.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/util/json.c b/source/util/json.c
index 6135924..f16de42 100644
--- a/source/util/json.c
+++ b/source/util/json.c
@@ -175,12 +175,18 @@ kefir_result_t kefir_json_output_array_end(struct kefir_json_output *json) {
     return KEFIR_OK;
 }
 
-static kefir_result_t format_raw_string(struct kefir_json_output *json, const char *string, kefir_size_t length) {
+static kefir_result_t format_raw_string(struct kefir_json_output *json, const char *string, kefir_size_t length,
+                                        kefir_bool_t c_escapes) {
     fprintf(json->file, "\"");
 
     for (const char *end = string + length; string < end;) {
         const unsigned char chr = (unsigned char) *string;
         size_t sz = 1;
+        if (c_escapes && (chr == '\a' || chr == '\v' || chr == '\?')) {
+            fprintf(json->file, "\\%c", chr == '\a' ? 'a' : chr == '\v' ? 'v' : '?');
+            string++;
+            continue;
+        }
         switch (chr) {
             case '\"':
                 fprintf(json->file, "\\\"");
@@ -237,7 +243,7 @@ static kefir_result_t format_raw_string(struct kefir_json_output *json, const ch
 }
 
 static kefir_result_t format_string(struct kefir_json_output *json, const char *string) {
-    REQUIRE_OK(format_raw_string(json, string, strlen(string)));
+    REQUIRE_OK(format_raw_string(json, string, strlen(string), false));
     return KEFIR_OK;
 }
 
@@ -351,7 +357,7 @@ kefir_result_t kefir_json_output_raw_string(struct kefir_json_output *json, cons
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    REQUIRE_OK(format_raw_string(json, value, length));
+    REQUIRE_OK(format_raw_string(json, value, length, true));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From e5aae708eadb6316ade7adb12ac5dc47521644cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:21 +0000
Subject: [PATCH 42/89] fix: punctuator followed by an incomplete longer
 punctuator

---
 source/lexer/tokens/punctuator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lexer/tokens/punctuator.c b/source/lexer/tokens/punctuator.c
index a593f38..d3a2c4e 100644
--- a/source/lexer/tokens/punctuator.c
+++ b/source/lexer/tokens/punctuator.c
@@ -131,8 +131,11 @@ static kefir_result_t match_punctuator(struct kefir_lexer_source_cursor *cursor,
     REQUIRE_OK(kefir_trie_at(trie, (kefir_trie_key_t) kefir_lexer_source_cursor_at(cursor, 0), &vertex));
     REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
 
+    struct kefir_lexer_source_cursor_state state;
+    REQUIRE_OK(kefir_lexer_source_cursor_save(cursor, &state));
     kefir_result_t res = match_punctuator(cursor, &vertex->node, token);
-    if (res == KEFIR_NOT_FOUND) {
+    if (res == KEFIR_NOT_FOUND || res == KEFIR_NO_MATCH) {
+        REQUIRE_OK(kefir_lexer_source_cursor_restore(cursor, &state));
         REQUIRE(vertex->node.value != PUNCTUATOR_NONE, KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match punctuator"));
         REQUIRE_OK(kefir_token_new_punctuator((kefir_punctuator_token_t) vertex->node.value, token));
     } else {
-- 
2.43.0


From d94e7c70cbe5b5fb76e672cb69e3fc16e34a7f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 43/89] fix: diagnose unterminated character constants

---
 source/lexer/tokens/character_constant.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/lexer/tokens/character_constant.c b/source/lexer/tokens/character_constant.c
index acef28f..fb43fce 100644
--- a/source/lexer/tokens/character_constant.c
+++ b/source/lexer/tokens/character_constant.c
@@ -37,6 +37,9 @@ static kefir_result_t next_character(struct kefir_lexer_source_cursor *cursor, k
     } else if (chr == U'\'') {
         *continueScan = false;
     } else {
+        REQUIRE(chr != U'\n' && chr != U'\0',
+                KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location,
+                                       "Character constant shall terminate with single quote"));
         *continueScan = true;
         REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     }
@@ -71,6 +74,9 @@ static kefir_result_t next_wide_character(struct kefir_lexer_source_cursor *curs
     } else if (chr == U'\'') {
         *continueScan = false;
     } else {
+        REQUIRE(chr != U'\n' && chr != U'\0',
+                KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location,
+                                       "Character constant shall terminate with single quote"));
         *continueScan = true;
         *value = chr;
         REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
-- 
2.43.0


From 8ff5bd6d5058f2d888baae38201561b1a9c9604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 44/89] fix: diagnose universal character names outside of the
 code space

---
 source/lexer/tokens/characters.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/lexer/tokens/characters.c b/source/lexer/tokens/characters.c
index ed17fb2..c900837 100644
--- a/source/lexer/tokens/characters.c
+++ b/source/lexer/tokens/characters.c
@@ -17,6 +17,7 @@ kefir_result_t kefir_lexer_cursor_next_universal_character(struct kefir_lexer_so
     REQUIRE(cursor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid lexer source cursor"));
     REQUIRE(target != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to character"));
 
+    struct kefir_source_location location = cursor->location;
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
     kefir_char32_t chr2 = kefir_lexer_source_cursor_at(cursor, 1);
 
@@ -45,6 +46,8 @@ kefir_result_t kefir_lexer_cursor_next_universal_character(struct kefir_lexer_so
     } else {
         return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match universal character");
     }
+    REQUIRE((*target < 0xd800 || *target > 0xdfff) && *target <= 0x10ffff,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &location, "Universal character name is out of permitted range"));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From c0bf7cae59739d7b61b03717bc5ec4431d225191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 45/89] fix: hexadecimal floating constants require an exponent

---
 source/lexer/tokens/floating_constant.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lexer/tokens/floating_constant.c b/source/lexer/tokens/floating_constant.c
index 7e0630e..0e9183e 100644
--- a/source/lexer/tokens/floating_constant.c
+++ b/source/lexer/tokens/floating_constant.c
@@ -182,7 +182,8 @@ static kefir_result_t match_hexadecimal_fractional_part(struct kefir_mem *mem, s
 static kefir_result_t match_hexadecimal_exponent(struct kefir_mem *mem, struct kefir_lexer_source_cursor *cursor,
                                                  struct kefir_string_buffer *strbuf) {
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    REQUIRE(chr == U'p' || chr == U'P', KEFIR_OK);
+    REQUIRE(chr == U'p' || chr == U'P', KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location,
+                                                               "Expected hexadecimal floating point exponent"));
     REQUIRE_OK(kefir_string_buffer_insert(mem, strbuf, chr));
     REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     chr = kefir_lexer_source_cursor_at(cursor, 0);
-- 
2.43.0


From 325c58278e068f9435272dc7c143be25bc1b72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:29 +0000
Subject: [PATCH 46/89] fix: diagnose integer constants exceeding 64 bits

---
 source/lexer/tokens/integer_constant.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/lexer/tokens/integer_constant.c b/source/lexer/tokens/integer_constant.c
index 9054b9e..c405cf5 100644
--- a/source/lexer/tokens/integer_constant.c
+++ b/source/lexer/tokens/integer_constant.c
@@ -21,6 +21,7 @@
 #include "kefir/lexer/lexer.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include "kefir/core/source_error.h"
 #include "kefir/util/char32.h"
 
 enum integer_constant_type {
@@ -155,6 +156,14 @@ static kefir_result_t build_integral_constant(const struct kefir_lexer_context *
     return KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Provided constant exceeds maximum value of its type");
 }
 
+static kefir_result_t append_digit(struct kefir_lexer_source_cursor *cursor, kefir_uint64_t base, kefir_uint64_t digit,
+                                   kefir_uint64_t *value) {
+    REQUIRE(*value <= (KEFIR_UINT64_MAX - digit) / base,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location, "Integer constant is too large"));
+    *value = *value * base + digit;
+    return KEFIR_OK;
+}
+
 static kefir_result_t next_decimal_constant(struct kefir_lexer_source_cursor *cursor, kefir_uint64_t *value) {
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
     REQUIRE(kefir_isdigit32(chr) && chr != U'0',
@@ -163,8 +172,7 @@ static kefir_result_t next_decimal_constant(struct kefir_lexer_source_cursor *cu
     *value = 0;
     for (; kefir_isdigit32(chr);
          kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
-        *value *= 10;
-        *value += chr - U'0';
+        REQUIRE_OK(append_digit(cursor, 10, chr - U'0', value));
     }
     return KEFIR_OK;
 }
@@ -180,8 +188,7 @@ static kefir_result_t next_hexadecimal_constant(struct kefir_lexer_source_cursor
     *value = 0;
     for (; kefir_ishexdigit32(chr);
          kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
-        *value <<= 4;
-        *value += kefir_hex32todec(chr);
+        REQUIRE_OK(append_digit(cursor, 16, kefir_hex32todec(chr), value));
     }
     return KEFIR_OK;
 }
@@ -193,8 +200,7 @@ static kefir_result_t next_octal_constant(struct kefir_lexer_source_cursor *curs
     *value = 0;
     for (; kefir_isoctdigit32(chr);
          kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
-        *value <<= 3;
-        *value += chr - U'0';
+        REQUIRE_OK(append_digit(cursor, 8, chr - U'0', value));
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 08589fd6040a1192175adff577c96ffb7b9ed8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:10 +0000
Subject: [PATCH 47/89] fix: malformed hexadecimal constant was scanned from
 its middle

---
 source/lexer/tokens/floating_constant.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/lexer/tokens/floating_constant.c b/source/lexer/tokens/floating_constant.c
index 0e9183e..6c1fdcf 100644
--- a/source/lexer/tokens/floating_constant.c
+++ b/source/lexer/tokens/floating_constant.c
@@ -262,8 +262,11 @@ kefir_result_t kefir_lexer_scan_floating_point_constant(struct kefir_mem *mem, s
     REQUIRE(cursor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source cursor"));
     REQUIRE(token != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid pointer to token"));
 
+    struct kefir_lexer_source_cursor_state state;
+    REQUIRE_OK(kefir_lexer_source_cursor_save(cursor, &state));
     kefir_result_t res = match_hexadecimal_floating_constant(mem, cursor, token);
     REQUIRE(res == KEFIR_NO_MATCH, res);
+    REQUIRE_OK(kefir_lexer_source_cursor_restore(cursor, &state));
     REQUIRE_OK(match_decimal_floating_constant(mem, cursor, token));
     return KEFIR_OK;
 }
-- 
2.43.0


From e99d526292db2a296b86cfe35a0d42a5ccffd747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:44 +0000
Subject: [PATCH 48/89] fix: identifiers with universal character names survive
 preprocessing

---
 source/lexer/tokens/identifier.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lexer/tokens/identifier.c b/source/lexer/tokens/identifier.c
index bd3e5d4..370661f 100644
--- a/source/lexer/tokens/identifier.c
+++ b/source/lexer/tokens/identifier.c
@@ -25,10 +25,11 @@
 #include "kefir/core/source_error.h"
 
 #define MAX_IDENTIFIER_LENGTH 255
+#define MIN_EXTENDED_IDENTIFIER_CHAR 0xa0  // Spelled directly or as universal character name
 
 static kefir_result_t scan_identifier_nondigit(struct kefir_lexer_source_cursor *cursor, kefir_char32_t *target) {
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    if (kefir_isnondigit32(chr)) {
+    if (kefir_isnondigit32(chr) || (chr >= MIN_EXTENDED_IDENTIFIER_CHAR && !kefir_isspace32(chr))) {
         *target = chr;
         REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
     } else {
-- 
2.43.0


From ded7f1541a1b6a3380a2c9959f2b2348ec269c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:25 +0000
Subject: [PATCH 49/89] fix: second surrogate in UTF-16 string literals

---
 source/core/string_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 0a029e4..d00c35f 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -207,7 +207,7 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
         const char bytes[sizeof(kefir_char16_t)];
     } u16chr;
 
-    while (begin < end) {
+    while (begin < end || !mbsinit(&mbstate)) {  // Second surrogate might be still pending
         sz = mbrtoc16(&u16chr.value, begin, end - begin, &mbstate);
         switch (sz) {
             case (size_t) -1:
-- 
2.43.0


From 7e9aad106fd354bd953deda8d8f4e29a2434ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 50/89] fix: diagnose out of range escapes in prefixed
 character constants

---
 source/lexer/tokens/character_constant.c | 3 +++
 source/lexer/tokens/characters.c         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/lexer/tokens/character_constant.c b/source/lexer/tokens/character_constant.c
index fb43fce..6456daa 100644
--- a/source/lexer/tokens/character_constant.c
+++ b/source/lexer/tokens/character_constant.c
@@ -133,6 +133,7 @@ static kefir_result_t match_wide_character(struct kefir_lexer *lexer, struct kef
 
 static kefir_result_t match_unicode16_character(struct kefir_lexer *lexer, struct kefir_token *token) {
     UNUSED(token);
+    struct kefir_source_location location = lexer->cursor->location;
     REQUIRE(kefir_lexer_source_cursor_at(lexer->cursor, 0) == U'u' &&
                 kefir_lexer_source_cursor_at(lexer->cursor, 1) == U'\'',
             KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match unicode character constant"));
@@ -140,6 +141,8 @@ static kefir_result_t match_unicode16_character(struct kefir_lexer *lexer, struc
 
     kefir_char32_t character_value = 0;
     REQUIRE_OK(scan_wide_character(lexer, &character_value));
+    REQUIRE(character_value <= KEFIR_CHAR16_MAX,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &location, "Character constant exceeds maximum character value"));
     REQUIRE_OK(kefir_token_new_constant_unicode16_char((kefir_char16_t) character_value, token));
     return KEFIR_OK;
 }
diff --git a/source/lexer/tokens/characters.c b/source/lexer/tokens/characters.c
index c900837..332cf19 100644
--- a/source/lexer/tokens/characters.c
+++ b/source/lexer/tokens/characters.c
@@ -146,6 +146,9 @@ static kefir_result_t next_hexadecimal_escape_sequence(struct kefir_lexer_source
     *target = 0;
     for (; kefir_ishexdigit32(chr);
          kefir_lexer_source_cursor_next(cursor, 1), chr = kefir_lexer_source_cursor_at(cursor, 0)) {
+        REQUIRE(*target <= (KEFIR_CHAR32_MAX >> 4),
+                KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &cursor->location,
+                                       "Escape sequence exceeds maximum character value"));
         *target <<= 4;
         *target += kefir_hex32todec(chr);
     }
-- 
2.43.0


From e90c95cd80114c07843bd8dc291cde0a5b6d642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 51/89] fix: address of a string literal

---
 source/ast-translator/lvalue.c                     | 13 +++++++++++++
 source/ast/analyzer/lvalue_constant_reference.c    |  9 +++++++++
 source/ast/analyzer/nodes/string_literal.c         |  1 +
 .../lvalue_constant_reference.c                    | 14 ++++++++++++++
 4 files changed, 37 insertions(+)

diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 77df40b..3b7c66f 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -324,6 +324,18 @@ static kefir_result_t translate_compound_literal_node(const struct kefir_ast_vis
     return KEFIR_OK;
 }
 
+static kefir_result_t translate_string_literal_node(const struct kefir_ast_visitor *visitor,
+                                                    const struct kefir_ast_string_literal *node, void *payload) {
+    REQUIRE(visitor != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST visitor"));
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST node"));
+    REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
+    ASSIGN_DECL_CAST(struct kefir_ast_translator_parameters *, param, payload);
+
+    REQUIRE_OK(
+        kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_extension_node(const struct kefir_ast_visitor *visitor,
                                                const struct kefir_ast_extension_node *node, void *payload) {
     REQUIRE(visitor != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST visitor"));
@@ -354,6 +366,7 @@ kefir_result_t kefir_ast_translate_lvalue(struct kefir_mem *mem, struct kefir_as
     visitor.struct_indirect_member = translate_struct_member_node;
     visitor.unary_operation = translate_unary_operation_node;
     visitor.compound_literal = translate_compound_literal_node;
+    visitor.string_literal = translate_string_literal_node;
     visitor.extension_node = translate_extension_node;
 
     kefir_result_t res;
diff --git a/source/ast/analyzer/lvalue_constant_reference.c b/source/ast/analyzer/lvalue_constant_reference.c
index 2dd6f65..49f761d 100644
--- a/source/ast/analyzer/lvalue_constant_reference.c
+++ b/source/ast/analyzer/lvalue_constant_reference.c
@@ -125,6 +125,14 @@ static kefir_result_t visit_compound_literal(const struct kefir_ast_visitor *vis
     return KEFIR_OK;
 }
 
+static kefir_result_t visit_string_literal(const struct kefir_ast_visitor *visitor,
+                                           const struct kefir_ast_string_literal *node, void *payload) {
+    UNUSED(visitor);
+    UNUSED(payload);
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST string literal node"));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_node_is_lvalue_reference_constant(const struct kefir_ast_context *context,
                                                            const struct kefir_ast_node_base *node,
                                                            kefir_bool_t *constant) {
@@ -141,6 +149,7 @@ kefir_result_t kefir_ast_node_is_lvalue_reference_constant(const struct kefir_as
     visitor.array_subscript = visit_array_subscript;
     visitor.struct_indirect_member = visit_struct_indirect_member;
     visitor.compound_literal = visit_compound_literal;
+    visitor.string_literal = visit_string_literal;
     REQUIRE_OK(KEFIR_AST_NODE_VISIT(&visitor, node, &param));
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/string_literal.c b/source/ast/analyzer/nodes/string_literal.c
index d4c028c..98cc202 100644
--- a/source/ast/analyzer/nodes/string_literal.c
+++ b/source/ast/analyzer/nodes/string_literal.c
@@ -61,6 +61,7 @@ kefir_result_t kefir_ast_analyze_string_literal_node(struct kefir_mem *mem, cons
     base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type,
                                                  kefir_ast_constant_expression_integer(mem, node->length), NULL);
     base->properties.expression_props.constant_expression = true;
+    base->properties.expression_props.addressable = true;
     base->properties.expression_props.string_literal.type = node->type;
     base->properties.expression_props.string_literal.content = node->literal;
     base->properties.expression_props.string_literal.length = node->length;
diff --git a/source/ast/constant_expression/lvalue_constant_reference.c b/source/ast/constant_expression/lvalue_constant_reference.c
index fea97db..975346a 100644
--- a/source/ast/constant_expression/lvalue_constant_reference.c
+++ b/source/ast/constant_expression/lvalue_constant_reference.c
@@ -276,6 +276,19 @@ static kefir_result_t visit_compound_literal(const struct kefir_ast_visitor *vis
     return KEFIR_OK;
 }
 
+static kefir_result_t visit_string_literal(const struct kefir_ast_visitor *visitor,
+                                           const struct kefir_ast_string_literal *node, void *payload) {
+    UNUSED(visitor);
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST string literal"));
+    REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid payload"));
+    ASSIGN_DECL_CAST(struct visitor_param *, param, payload);
+
+    struct kefir_ast_constant_expression_value value;
+    REQUIRE_OK(kefir_ast_evaluate_string_literal_node(param->mem, param->context, node, &value));
+    *param->pointer = value.pointer;
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_constant_expression_value_evaluate_lvalue_reference(
     struct kefir_mem *mem, const struct kefir_ast_context *context, const struct kefir_ast_node_base *node,
     struct kefir_ast_constant_expression_pointer *pointer) {
@@ -291,6 +304,7 @@ kefir_result_t kefir_ast_constant_expression_value_evaluate_lvalue_reference(
     visitor.array_subscript = visit_array_subscript;
     visitor.struct_indirect_member = visit_struct_indirect_member;
     visitor.compound_literal = visit_compound_literal;
+    visitor.string_literal = visit_string_literal;
 
     struct visitor_param param = {.mem = mem, .context = context, .pointer = pointer};
     REQUIRE_OK(KEFIR_AST_NODE_VISIT(&visitor, node, &param));
-- 
2.43.0


From aef4ed147e5e2ce70c257c88daa040fbc6ae9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 52/89] fix: escapes in wide string literals range over the
 unsigned counterpart of wchar_t

---
 source/core/string_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index d00c35f..317d343 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -352,7 +352,7 @@ kefir_result_t kefir_string_buffer_insert_raw(struct kefir_mem *mem, struct kefi
         } break;
 
         case KEFIR_STRING_BUFFER_WIDE: {
-            REQUIRE(raw_value <= KEFIR_WCHAR_MAX,
+            REQUIRE(raw_value <= (kefir_int64_t) KEFIR_UINT32_MAX,
                     KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Maximum wide character value is exceeded"));
             union {
                 kefir_wchar_t raw;
-- 
2.43.0


From e039a4c2e9089d49c48470c29a7f0c8b4f3bfd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 53/89] fix: dangling name of a compound literal in a constant
 address

---
 source/ast/constant_expression/lvalue_constant_reference.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ast/constant_expression/lvalue_constant_reference.c b/source/ast/constant_expression/lvalue_constant_reference.c
index 975346a..cfcbc0b 100644
--- a/source/ast/constant_expression/lvalue_constant_reference.c
+++ b/source/ast/constant_expression/lvalue_constant_reference.c
@@ -266,7 +266,9 @@ static kefir_result_t visit_compound_literal(const struct kefir_ast_visitor *vis
         REQUIRE_OK(param->context->resolve_ordinary_identifier(param->context, buf, &scoped_id));
 
         param->pointer->type = KEFIR_AST_CONSTANT_EXPRESSION_POINTER_IDENTIFER;
-        param->pointer->base.literal = buf;
+        param->pointer->base.literal = kefir_symbol_table_insert(param->mem, param->context->symbols, buf, NULL);
+        REQUIRE(param->pointer->base.literal != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate temporary identifier"));
         param->pointer->offset = 0;
         param->pointer->pointer_node = KEFIR_AST_NODE_BASE(node);
         param->pointer->scoped_id = scoped_id;
-- 
2.43.0


From 84fb3aab7d82b56b16de0a125e22503ebfd23ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:00 +0000
Subject: [PATCH 54/89] fix: brace elision and designators through qualified
 aggregates

---
 source/ast/analyzer/type_traversal.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index 3d78b54..f4bc5bd 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -46,6 +46,9 @@ static kefir_result_t push_layer(struct kefir_mem *mem, struct kefir_ast_type_tr
                                  const struct kefir_ast_type_traversal_layer *parent) {
     struct kefir_ast_type_traversal_layer *layer = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_type_traversal_layer));
     REQUIRE(layer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type traversal layer"));
+    if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(kefir_ast_unqualified_type(object_type))) {
+        object_type = kefir_ast_unqualified_type(object_type);
+    }
     layer->parent = parent;
     layer->object_type = object_type;
     layer->init = true;
@@ -233,16 +236,19 @@ kefir_result_t kefir_ast_type_traversal_next_recursive2(struct kefir_mem *mem,
     const struct kefir_ast_type_traversal_layer *top_layer = NULL;
     REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &top_type, &top_layer));
     if (top_type != NULL) {
-        switch (top_type->tag) {
+        const struct kefir_ast_type *unqualified_type = kefir_ast_unqualified_type(top_type);
+        switch (unqualified_type->tag) {
             case KEFIR_AST_TYPE_STRUCTURE:
             case KEFIR_AST_TYPE_UNION:
             case KEFIR_AST_TYPE_ARRAY:
-                if (stop == NULL || !stop(top_type, stop_payload)) {
-                    REQUIRE_OK(push_layer(mem, traversal, top_type, top_layer));
+                if (stop == NULL || !stop(unqualified_type, stop_payload)) {
+                    REQUIRE_OK(push_layer(mem, traversal, unqualified_type, top_layer));
                     return kefir_ast_type_traversal_next_recursive2(mem, traversal, stop, stop_payload, type,
                                                                     layer_ptr);
                 }
-                // Intentional fallthrough
+                ASSIGN_PTR(layer_ptr, top_layer);
+                *type = unqualified_type;
+                break;
 
             default:
                 ASSIGN_PTR(layer_ptr, top_layer);
-- 
2.43.0


From 0e851988d8a83125f2b4a06dbf14ebf8f05e7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:29 +0000
Subject: [PATCH 55/89] fix: concatenated string literals keep elements that
 encode no character

---
 source/core/string_buffer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 317d343..d8be919 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -434,6 +434,17 @@ kefir_result_t kefir_string_buffer_merge(struct kefir_mem *mem, struct kefir_str
     REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination string buffer"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source string buffer"));
 
+    const kefir_bool_t src_bytes =
+        src->mode == KEFIR_STRING_BUFFER_MULTIBYTE || src->mode == KEFIR_STRING_BUFFER_UNICODE8;
+    const kefir_bool_t dst_bytes =
+        dst->mode == KEFIR_STRING_BUFFER_MULTIBYTE || dst->mode == KEFIR_STRING_BUFFER_UNICODE8;
+    if (src->mode == dst->mode || (src_bytes && dst_bytes)) {
+        // Elements need no conversion and, due to escape sequences, might not encode valid characters
+        REQUIRE(src->length > 0, KEFIR_OK);
+        REQUIRE_OK(insert_buffer(mem, dst, src->buffer, src->length));
+        return KEFIR_OK;
+    }
+
     switch (src->mode) {
         case KEFIR_STRING_BUFFER_MULTIBYTE:
         case KEFIR_STRING_BUFFER_UNICODE8: {
-- 
2.43.0


From 936c90b120f95edf6f1ecee5328e50b2717bb8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:16 +0000
Subject: [PATCH 56/89] fix: results of # and ## are not substituted again,
 preprocessing numbers are pasted with periods and signs

---
 source/preprocessor/user_macro.c | 343 ++++++++++++-------------------
 1 file changed, 134 insertions(+), 209 deletions(-)

diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index e2c1012..9652ab0 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -24,7 +24,6 @@
 #include "kefir/core/hashtree.h"
 #include "kefir/core/source_error.h"
 #include "kefir/preprocessor/format.h"
-#include "kefir/preprocessor/token_sequence.h"
 #include "kefir/lexer/format.h"
 #include <string.h>
 
@@ -126,70 +125,6 @@ static kefir_result_t fn_macro_parameter_stringification(struct kefir_mem *mem,
 
 static const struct kefir_token PlacemakerToken = {.klass = KEFIR_TOKEN_PP_PLACEMAKER};
 
-static kefir_result_t concat_resolve_left_argument(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                                   struct kefir_token_buffer *buffer, const struct kefir_token *arg,
-                                                   const struct kefir_token **result) {
-    if (arg->klass == KEFIR_TOKEN_IDENTIFIER && arg_tree != NULL) {
-        struct kefir_hashtree_node *node;
-        kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) arg->identifier, &node);
-        if (res != KEFIR_NOT_FOUND) {
-            REQUIRE_OK(res);
-            ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
-
-            if (arg_buffer->length == 0) {
-                *result = &PlacemakerToken;
-            } else {
-                struct kefir_token token_copy;
-                for (kefir_size_t i = 0; i < arg_buffer->length - 1; i++) {
-                    REQUIRE_OK(kefir_token_copy(mem, &token_copy, &arg_buffer->tokens[i]));
-                    res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
-                    REQUIRE_ELSE(res == KEFIR_OK, {
-                        kefir_token_free(mem, &token_copy);
-                        return res;
-                    });
-                }
-                *result = &arg_buffer->tokens[arg_buffer->length - 1];
-            }
-            return KEFIR_OK;
-        }
-    }
-
-    *result = arg;
-    return KEFIR_OK;
-}
-
-static kefir_result_t concat_resolve_right_argument(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                                    struct kefir_token_buffer *buffer, const struct kefir_token *arg,
-                                                    const struct kefir_token **result) {
-    if (arg->klass == KEFIR_TOKEN_IDENTIFIER && arg_tree != NULL) {
-        struct kefir_hashtree_node *node;
-        kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) arg->identifier, &node);
-        if (res != KEFIR_NOT_FOUND) {
-            REQUIRE_OK(res);
-            ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
-
-            if (arg_buffer->length == 0) {
-                *result = &PlacemakerToken;
-            } else {
-                struct kefir_token token_copy;
-                for (kefir_size_t i = 1; i < arg_buffer->length; i++) {
-                    REQUIRE_OK(kefir_token_copy(mem, &token_copy, &arg_buffer->tokens[i]));
-                    res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
-                    REQUIRE_ELSE(res == KEFIR_OK, {
-                        kefir_token_free(mem, &token_copy);
-                        return res;
-                    });
-                }
-                *result = &arg_buffer->tokens[0];
-            }
-            return KEFIR_OK;
-        }
-    }
-
-    *result = arg;
-    return KEFIR_OK;
-}
-
 static char *concat_strings(struct kefir_mem *mem, const char *str1, const char *str2) {
 
     kefir_size_t sz = strlen(str1) + strlen(str2) + 1;
@@ -200,17 +135,59 @@ static char *concat_strings(struct kefir_mem *mem, const char *str1, const char
     return result;
 }
 
+static const char *concat_operand_spelling(const struct kefir_token *token) {
+    switch (token->klass) {
+        case KEFIR_TOKEN_IDENTIFIER:
+            return token->identifier;
+
+        case KEFIR_TOKEN_PP_NUMBER:
+            return token->pp_number.number_literal;
+
+        case KEFIR_TOKEN_PUNCTUATOR:
+            switch (token->punctuator) {
+                case KEFIR_PUNCTUATOR_DOT:
+                    return ".";
+
+                case KEFIR_PUNCTUATOR_ELLIPSIS:
+                    return "...";
+
+                case KEFIR_PUNCTUATOR_PLUS:
+                    return "+";
+
+                case KEFIR_PUNCTUATOR_MINUS:
+                    return "-";
+
+                default:
+                    return NULL;
+            }
+
+        default:
+            return NULL;
+    }
+}
+
+static kefir_bool_t can_concat(const struct kefir_token *left, const struct kefir_token *right, const char *left_str,
+                               const char *right_str) {
+    if (left->klass == KEFIR_TOKEN_PUNCTUATOR) {
+        return left->punctuator == KEFIR_PUNCTUATOR_DOT && right->klass == KEFIR_TOKEN_PP_NUMBER && *right_str != '.';
+    } else if (right->klass == KEFIR_TOKEN_PUNCTUATOR) {
+        return left->klass == KEFIR_TOKEN_PP_NUMBER &&
+               (*right_str == '.' || strchr("eEpP", left_str[strlen(left_str) - 1]) != NULL);
+    } else {
+        return true;
+    }
+}
+
 static kefir_result_t concat_tokens_impl(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
                                          const struct kefir_token *left, const struct kefir_token *right,
                                          struct kefir_token_buffer *buffer) {
-    REQUIRE(right->klass == KEFIR_TOKEN_IDENTIFIER || right->klass == KEFIR_TOKEN_PP_NUMBER,
+    const char *left_str = concat_operand_spelling(left);
+    const char *right_str = concat_operand_spelling(right);
+    REQUIRE(left_str != NULL && right_str != NULL && can_concat(left, right, left_str, right_str),
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &right->source_location,
                                    "Expected either identifier or preprocessor number"));
     struct kefir_token token;
     kefir_result_t res;
-    const char *left_str = left->klass == KEFIR_TOKEN_IDENTIFIER ? left->identifier : left->pp_number.number_literal;
-    const char *right_str =
-        right->klass == KEFIR_TOKEN_IDENTIFIER ? right->identifier : right->pp_number.number_literal;
     char *result = concat_strings(mem, left_str, right_str);
     REQUIRE(result != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate identifier string"));
 
@@ -342,7 +319,9 @@ static kefir_result_t macro_concatenation_impl(struct kefir_mem *mem, struct kef
                                               "Unexpected string literal token");
 
             case KEFIR_TOKEN_PUNCTUATOR: {
-                if (right->klass != KEFIR_TOKEN_EXTENSION) {
+                if (right->klass == KEFIR_TOKEN_PP_NUMBER) {
+                    REQUIRE_OK(concat_tokens_impl(mem, symbols, left, right, buffer));
+                } else if (right->klass != KEFIR_TOKEN_EXTENSION) {
                     REQUIRE(right->klass == KEFIR_TOKEN_PUNCTUATOR,
                             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &right->source_location,
                                                    "Expected punctuator token"));
@@ -386,169 +365,115 @@ static kefir_result_t macro_concatenation_impl(struct kefir_mem *mem, struct kef
     return KEFIR_OK;
 }
 
-static kefir_result_t macro_concatenation(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
-                                          struct kefir_symbol_table *symbols, struct kefir_token_buffer *buffer,
-                                          const struct kefir_token *arg1, const struct kefir_token *arg2) {
-    const struct kefir_token *left;
-    const struct kefir_token *right;
-    struct kefir_token_buffer tail;
-    REQUIRE_OK(concat_resolve_left_argument(mem, arg_tree, buffer, arg1, &left));
-    REQUIRE_OK(kefir_token_buffer_init(&tail));
-    kefir_result_t res = concat_resolve_right_argument(mem, arg_tree, &tail, arg2, &right);
-    REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, buffer, left, right));
-    REQUIRE_CHAIN(&res, kefir_token_buffer_insert(mem, buffer, &tail));
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &tail);
-        return res;
-    });
-    REQUIRE_OK(kefir_token_buffer_free(mem, &tail));
-    return KEFIR_OK;
+static kefir_bool_t is_operator(const struct kefir_token *token, kefir_punctuator_token_t punctuator,
+                                kefir_punctuator_token_t digraph) {
+    return token->klass == KEFIR_TOKEN_PUNCTUATOR && (token->punctuator == punctuator || token->punctuator == digraph);
 }
 
-static kefir_result_t match_concatenation(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
-                                          struct kefir_preprocessor_token_sequence *seq,
-                                          const struct kefir_hashtree *arg_tree, struct kefir_token *left_operand) {
-    if (left_operand->klass == KEFIR_TOKEN_PP_WHITESPACE) {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation");
+static kefir_size_t skip_whitespaces(const struct kefir_token_buffer *buffer, kefir_size_t index) {
+    while (index < buffer->length && buffer->tokens[index].klass == KEFIR_TOKEN_PP_WHITESPACE) {
+        index++;
     }
+    return index;
+}
 
-    const struct kefir_token *next_nonws_token = NULL;
-    struct kefir_token_buffer whitespaces;
-    REQUIRE_OK(kefir_token_buffer_init(&whitespaces));
-    kefir_result_t res = kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &next_nonws_token, &whitespaces);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &whitespaces);
-        return res;
-    });
-    if (next_nonws_token == NULL || next_nonws_token->klass != KEFIR_TOKEN_PUNCTUATOR ||
-        next_nonws_token->punctuator != KEFIR_PUNCTUATOR_DOUBLE_HASH) {
-        res = kefir_preprocessor_token_sequence_push_front(mem, seq, &whitespaces);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_token_buffer_free(mem, &whitespaces);
-            return res;
-        });
-        REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation");
-    }
-    struct kefir_source_location source_location = next_nonws_token->source_location;
-    REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
-    REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-
-    const struct kefir_token *right_operand = NULL;
-    REQUIRE_OK(kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &right_operand, NULL));
-    REQUIRE(
-        right_operand != NULL,
-        KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &source_location,
-                               "Preprocessor concatenation operator cannot be placed at the end of replacement list"));
-
-    struct kefir_token_buffer result;
-    REQUIRE_OK(kefir_token_buffer_init(&result));
-    res = macro_concatenation(mem, arg_tree, symbols, &result, left_operand, right_operand);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &result));
+static kefir_result_t append_token(struct kefir_mem *mem, struct kefir_token_buffer *buffer,
+                                   const struct kefir_token *token) {
+    struct kefir_token token_copy;
+    REQUIRE_OK(kefir_token_copy(mem, &token_copy, token));
+    kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token_copy);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &result);
+        kefir_token_free(mem, &token_copy);
         return res;
     });
-    REQUIRE_OK(kefir_token_buffer_free(mem, &result));
-    REQUIRE_OK(kefir_token_free(mem, left_operand));
     return KEFIR_OK;
 }
 
-static kefir_result_t run_replacement_list_substitutions_impl(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
-                                                              struct kefir_preprocessor_token_sequence *seq,
-                                                              const struct kefir_hashtree *arg_tree,
-                                                              struct kefir_token_buffer *result) {
-    while (true) {
-        struct kefir_token current_token;
-        kefir_result_t res = kefir_preprocessor_token_sequence_next(mem, seq, &current_token);
-        if (res == KEFIR_ITERATOR_END) {
-            break;
-        } else {
-            REQUIRE_OK(res);
-        }
+static kefir_result_t append_replacement_list_item(struct kefir_mem *mem, const struct kefir_token_buffer *replacement,
+                                                   kefir_size_t *index, const struct kefir_hashtree *arg_tree,
+                                                   kefir_bool_t concat_operand, struct kefir_token_buffer *buffer) {
+    const struct kefir_token *token = &replacement->tokens[(*index)++];
+    if (arg_tree != NULL && is_operator(token, KEFIR_PUNCTUATOR_HASH, KEFIR_PUNCTUATOR_DIGRAPH_HASH)) {
+        *index = skip_whitespaces(replacement, *index);
+        REQUIRE(*index < replacement->length && replacement->tokens[*index].klass == KEFIR_TOKEN_IDENTIFIER,
+                KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
+                                       "Expected # to be followed by macro parameter"));
+        REQUIRE_OK(fn_macro_parameter_stringification(mem, arg_tree, buffer,
+                                                      replacement->tokens[(*index)++].identifier,
+                                                      &token->source_location));
+        return KEFIR_OK;
+    }
 
-        kefir_bool_t matched = false;
-        res = match_concatenation(mem, symbols, seq, arg_tree, &current_token);
+    if (arg_tree != NULL && token->klass == KEFIR_TOKEN_IDENTIFIER) {
+        const kefir_size_t initial_length = buffer->length;
+        kefir_result_t res = fn_macro_parameter_substitution(mem, arg_tree, buffer, token->identifier);
         if (res != KEFIR_NO_MATCH) {
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                kefir_token_free(mem, &current_token);
-                return res;
-            });
-            matched = true;
-        }
-
-        if (!matched && arg_tree != NULL && current_token.klass == KEFIR_TOKEN_IDENTIFIER) {
-            res = fn_macro_parameter_substitution(mem, arg_tree, result, current_token.identifier);
-            if (res != KEFIR_NO_MATCH) {
-                REQUIRE_ELSE(res == KEFIR_OK, {
-                    kefir_token_free(mem, &current_token);
-                    return res;
-                });
-                REQUIRE_OK(kefir_token_free(mem, &current_token));
-                matched = true;
+            REQUIRE_OK(res);
+            if (concat_operand && buffer->length == initial_length) {
+                REQUIRE_OK(append_token(mem, buffer, &PlacemakerToken));
             }
+            return KEFIR_OK;
         }
+    }
 
-        if (!matched && arg_tree != NULL && current_token.klass == KEFIR_TOKEN_PUNCTUATOR &&
-            current_token.punctuator == KEFIR_PUNCTUATOR_HASH) {
-            struct kefir_source_location source_location = current_token.source_location;
-            const struct kefir_token *param_token = NULL;
-            REQUIRE_OK(kefir_token_free(mem, &current_token));
-            REQUIRE_OK(kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &param_token, NULL));
-            REQUIRE(param_token != NULL && param_token->klass == KEFIR_TOKEN_IDENTIFIER,
-                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &source_location,
-                                           "Expected # to be followed by macro parameter"));
-            const char *identifier = param_token->identifier;
-            REQUIRE_OK(fn_macro_parameter_stringification(mem, arg_tree, result, identifier, &source_location));
-            REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-            matched = true;
-        }
+    REQUIRE_OK(append_token(mem, buffer, token));
+    return KEFIR_OK;
+}
 
-        if (!matched) {
-            res = kefir_token_buffer_emplace(mem, result, &current_token);
-            REQUIRE_ELSE(res == KEFIR_OK, {
-                kefir_token_free(mem, &current_token);
-                return res;
-            });
-        }
+static kefir_result_t macro_concatenation(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
+                                          struct kefir_token_buffer *buffer, const struct kefir_token_buffer *right) {
+    struct kefir_token left;
+    REQUIRE_OK(kefir_token_copy(mem, &left, &buffer->tokens[buffer->length - 1]));
+    kefir_result_t res = kefir_token_buffer_pop(mem, buffer);
+    REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, buffer, &left, &right->tokens[0]));
+    for (kefir_size_t i = 1; res == KEFIR_OK && i < right->length; i++) {
+        res = append_token(mem, buffer, &right->tokens[i]);
     }
-    return KEFIR_OK;
+    kefir_token_free(mem, &left);
+    return res;
 }
 
 static kefir_result_t run_replacement_list_substitutions(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
                                                          const struct kefir_token_buffer *replacement,
                                                          const struct kefir_hashtree *arg_tree,
                                                          struct kefir_token_buffer *buffer) {
+    for (kefir_size_t index = 0; index < replacement->length;) {
+        kefir_size_t next_index = index + 1;
+        if (arg_tree != NULL &&
+            is_operator(&replacement->tokens[index], KEFIR_PUNCTUATOR_HASH, KEFIR_PUNCTUATOR_DIGRAPH_HASH)) {
+            next_index = skip_whitespaces(replacement, next_index) + 1;
+        }
+        next_index = skip_whitespaces(replacement, next_index);
+        kefir_bool_t concat = replacement->tokens[index].klass != KEFIR_TOKEN_PP_WHITESPACE &&
+                              next_index < replacement->length &&
+                              is_operator(&replacement->tokens[next_index], KEFIR_PUNCTUATOR_DOUBLE_HASH,
+                                          KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH);
+        REQUIRE_OK(append_replacement_list_item(mem, replacement, &index, arg_tree, concat, buffer));
+
+        while (concat) {
+            const struct kefir_source_location *source_location = &replacement->tokens[next_index].source_location;
+            index = skip_whitespaces(replacement, next_index + 1);
+            REQUIRE(index < replacement->length,
+                    KEFIR_SET_SOURCE_ERROR(
+                        KEFIR_LEXER_ERROR, source_location,
+                        "Preprocessor concatenation operator cannot be placed at the end of replacement list"));
+
+            struct kefir_token_buffer right;
+            REQUIRE_OK(kefir_token_buffer_init(&right));
+            kefir_result_t res = append_replacement_list_item(mem, replacement, &index, arg_tree, true, &right);
+            REQUIRE_CHAIN(&res, macro_concatenation(mem, symbols, buffer, &right));
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_buffer_free(mem, &right);
+                return res;
+            });
+            REQUIRE_OK(kefir_token_buffer_free(mem, &right));
 
-    struct kefir_token_buffer replacement_copy;
-    REQUIRE_OK(kefir_token_buffer_init(&replacement_copy));
-    kefir_result_t res = kefir_token_buffer_copy(mem, &replacement_copy, replacement);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &replacement_copy);
-        return res;
-    });
-
-    struct kefir_preprocessor_token_sequence seq;
-    res = kefir_preprocessor_token_sequence_init(&seq);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &replacement_copy);
-        return res;
-    });
-    res = kefir_preprocessor_token_sequence_push_front(mem, &seq, &replacement_copy);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_preprocessor_token_sequence_free(mem, &seq);
-        kefir_token_buffer_free(mem, &replacement_copy);
-        return res;
-    });
-    res = kefir_token_buffer_free(mem, &replacement_copy);
-    REQUIRE_CHAIN(&res, run_replacement_list_substitutions_impl(mem, symbols, &seq, arg_tree, buffer));
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_preprocessor_token_sequence_free(mem, &seq);
-        return res;
-    });
-
-    REQUIRE_OK(kefir_preprocessor_token_sequence_free(mem, &seq));
+            next_index = skip_whitespaces(replacement, index);
+            concat = next_index < replacement->length &&
+                     is_operator(&replacement->tokens[next_index], KEFIR_PUNCTUATOR_DOUBLE_HASH,
+                                 KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH);
+        }
+    }
     return KEFIR_OK;
 }
 
-- 
2.43.0


From f7bed1fd8f055c9c6fa96076626f5fc4012ef86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:16 +0000
Subject: [PATCH 57/89] fix: names of macros being replaced are not replaced
 again in nested replacements

---
 headers/kefir/preprocessor/token_sequence.h |  5 ++
 source/preprocessor/substitutions.c         | 52 ++++++++++++++-------
 source/preprocessor/token_sequence.c        | 26 +++++++++++
 3 files changed, 67 insertions(+), 16 deletions(-)

diff --git a/headers/kefir/preprocessor/token_sequence.h b/headers/kefir/preprocessor/token_sequence.h
index 0957e01..9ec2179 100644
--- a/headers/kefir/preprocessor/token_sequence.h
+++ b/headers/kefir/preprocessor/token_sequence.h
@@ -26,6 +26,7 @@
 
 typedef struct kefir_preprocessor_token_sequence {
     struct kefir_list buffer_stack;
+    const struct kefir_preprocessor_token_sequence *parent;
 } kefir_preprocessor_token_sequence_t;
 
 kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_token_sequence *);
@@ -33,6 +34,10 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *, struct
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *,
                                                             struct kefir_preprocessor_token_sequence *,
                                                             struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *,
+                                                            struct kefir_preprocessor_token_sequence *,
+                                                            struct kefir_token_buffer *, const char *);
+kefir_bool_t kefir_preprocessor_token_sequence_in_macro(const struct kefir_preprocessor_token_sequence *, const char *);
 kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
                                                       struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_sequence_shift(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
diff --git a/source/preprocessor/substitutions.c b/source/preprocessor/substitutions.c
index 19bec05..6fe1b1b 100644
--- a/source/preprocessor/substitutions.c
+++ b/source/preprocessor/substitutions.c
@@ -24,6 +24,11 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_result_t run_nested_substitutions(struct kefir_mem *, struct kefir_preprocessor *,
+                                               const struct kefir_preprocessor_token_sequence *,
+                                               struct kefir_token_buffer *,
+                                               kefir_preprocessor_substitution_context_t);
+
 static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                               struct kefir_preprocessor_token_sequence *seq,
                                               const struct kefir_preprocessor_macro *macro,
@@ -31,7 +36,7 @@ static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefi
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, NULL, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -97,8 +102,9 @@ static kefir_result_t function_macro_arguments_push(struct kefir_mem *mem, struc
 }
 
 static kefir_result_t prepare_function_macro_argument(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                      const struct kefir_preprocessor_token_sequence *seq,
                                                       struct kefir_token_buffer *buffer) {
-    REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, buffer, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
+    REQUIRE_OK(run_nested_substitutions(mem, preprocessor, seq, buffer, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
     while (buffer->length > 0 && buffer->tokens[buffer->length - 1].klass == KEFIR_TOKEN_PP_WHITESPACE) {
         REQUIRE_OK(kefir_token_buffer_pop(mem, buffer));
     }
@@ -168,7 +174,7 @@ static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struc
 
     for (const struct kefir_list_entry *iter = kefir_list_head(args); iter != NULL; kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_token_buffer *, arg_buffer, iter->value);
-        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, arg_buffer));
+        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, seq, arg_buffer));
     }
     return KEFIR_OK;
 }
@@ -180,7 +186,7 @@ static kefir_result_t apply_function_macro(struct kefir_mem *mem, struct kefir_p
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, args, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -368,11 +374,16 @@ static kefir_result_t run_substitutions(struct kefir_mem *mem, struct kefir_prep
             REQUIRE_OK(res);
 
             kefir_result_t res = KEFIR_NO_MATCH;
-            if (token.klass == KEFIR_TOKEN_IDENTIFIER &&
-                (!token.preprocessor_props.skip_identifier_subst ||
-                 subst_context == KEFIR_PREPROCESSOR_SUBSTITUTION_IF_CONDITION)) {
-                res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
-                                            &token.source_location);
+            if (token.klass == KEFIR_TOKEN_IDENTIFIER) {
+                if (kefir_preprocessor_token_sequence_in_macro(seq, token.identifier)) {
+                    token.preprocessor_props.skip_identifier_subst = true;
+                }
+                if (!token.preprocessor_props.skip_identifier_subst) {
+                    res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
+                                                &token.source_location);
+                } else {
+                    res = substitute_unknown_identifier(mem, seq, subst_context, &token.source_location);
+                }
                 REQUIRE_CHAIN(&res, kefir_token_free(mem, &token));
             }
 
@@ -449,15 +460,13 @@ static kefir_result_t run_substitutions_impl(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
-                                                    struct kefir_token_buffer *buffer,
-                                                    kefir_preprocessor_substitution_context_t subst_context) {
-    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
-    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
-    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
-
+static kefir_result_t run_nested_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                               const struct kefir_preprocessor_token_sequence *parent,
+                                               struct kefir_token_buffer *buffer,
+                                               kefir_preprocessor_substitution_context_t subst_context) {
     struct kefir_preprocessor_token_sequence seq;
     REQUIRE_OK(kefir_preprocessor_token_sequence_init(&seq));
+    seq.parent = parent;
     kefir_result_t res = run_substitutions_impl(mem, preprocessor, buffer, &seq, subst_context);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_preprocessor_token_sequence_free(mem, &seq);
@@ -466,3 +475,14 @@ kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struc
     REQUIRE_OK(kefir_preprocessor_token_sequence_free(mem, &seq));
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                    struct kefir_token_buffer *buffer,
+                                                    kefir_preprocessor_substitution_context_t subst_context) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
+    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
+
+    REQUIRE_OK(run_nested_substitutions(mem, preprocessor, NULL, buffer, subst_context));
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/token_sequence.c b/source/preprocessor/token_sequence.c
index b868ff1..d2e30ad 100644
--- a/source/preprocessor/token_sequence.c
+++ b/source/preprocessor/token_sequence.c
@@ -21,10 +21,12 @@
 #include "kefir/preprocessor/token_sequence.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include <string.h>
 
 struct buffer_element {
     struct kefir_token_buffer buffer;
     kefir_size_t index;
+    const char *macro_identifier;
 };
 
 static kefir_result_t free_token_buffer(struct kefir_mem *mem, struct kefir_list *list, struct kefir_list_entry *entry,
@@ -45,6 +47,7 @@ kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_
 
     REQUIRE_OK(kefir_list_init(&seq->buffer_stack));
     REQUIRE_OK(kefir_list_on_remove(&seq->buffer_stack, free_token_buffer, NULL));
+    seq->parent = NULL;
     return KEFIR_OK;
 }
 
@@ -60,6 +63,14 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *mem,
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *mem,
                                                             struct kefir_preprocessor_token_sequence *seq,
                                                             struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_sequence_push_macro(mem, seq, src, NULL));
+    return KEFIR_OK;
+}
+
+kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *mem,
+                                                            struct kefir_preprocessor_token_sequence *seq,
+                                                            struct kefir_token_buffer *src,
+                                                            const char *macro_identifier) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(seq != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token sequence"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -78,6 +89,7 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
         return res;
     });
     buffer_elt->index = 0;
+    buffer_elt->macro_identifier = macro_identifier;
 
     res = kefir_list_insert_after(mem, &seq->buffer_stack, kefir_list_tail(&seq->buffer_stack), buffer_elt);
     REQUIRE_ELSE(res == KEFIR_OK, {
@@ -88,6 +100,20 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
     return KEFIR_OK;
 }
 
+kefir_bool_t kefir_preprocessor_token_sequence_in_macro(const struct kefir_preprocessor_token_sequence *seq,
+                                                        const char *macro_identifier) {
+    for (; seq != NULL; seq = seq->parent) {
+        for (const struct kefir_list_entry *iter = kefir_list_head(&seq->buffer_stack); iter != NULL;
+             kefir_list_next(&iter)) {
+            ASSIGN_DECL_CAST(const struct buffer_element *, buffer_elt, iter->value);
+            if (buffer_elt->macro_identifier != NULL && strcmp(buffer_elt->macro_identifier, macro_identifier) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 static kefir_result_t next_buffer_elt(struct kefir_mem *mem, struct kefir_preprocessor_token_sequence *seq,
                                       struct buffer_element **buffer_elt) {
     *buffer_elt = NULL;
-- 
2.43.0


From d85b6db5b475fffe2a655b68a6f6a38d1bfd86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:16 +0000
Subject: [PATCH 58/89] fix: diagnose malformed macro parameter and replacement
 lists

---
 source/preprocessor/directives.c | 58 ++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index f535102..c7fb5aa 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -341,6 +341,49 @@ static kefir_result_t next_define_replacement_list(struct kefir_mem *mem,
     return KEFIR_OK;
 }
 
+static kefir_bool_t has_define_parameter(const struct kefir_list *parameters, const char *identifier) {
+    for (const struct kefir_list_entry *iter = kefir_list_head(parameters); iter != NULL; kefir_list_next(&iter)) {
+        if (strcmp((const char *) iter->value, identifier) == 0) {
+            return true;
+        }
+    }
+    return false;
+}
+
+static kefir_result_t check_define_replacement_list(const struct kefir_preprocessor_directive *directive) {
+    const struct kefir_token_buffer *replacement = &directive->define_directive.replacement;
+    const kefir_bool_t function = !directive->define_directive.object;
+    for (kefir_size_t i = 0; i < replacement->length; i++) {
+        const struct kefir_token *token = &replacement->tokens[i];
+        if (token->klass == KEFIR_TOKEN_IDENTIFIER) {
+            REQUIRE(strcmp(token->identifier, "__VA_ARGS__") != 0 || (function && directive->define_directive.vararg),
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
+                                           "__VA_ARGS__ is permitted only in variadic macros"));
+        } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR &&
+                   (token->punctuator == KEFIR_PUNCTUATOR_DOUBLE_HASH ||
+                    token->punctuator == KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH)) {
+            REQUIRE(i > 0 && i + 1 < replacement->length,
+                    KEFIR_SET_SOURCE_ERROR(
+                        KEFIR_LEXER_ERROR, &token->source_location,
+                        "Preprocessor concatenation operator cannot be placed at either end of replacement list"));
+        } else if (function && token->klass == KEFIR_TOKEN_PUNCTUATOR &&
+                   (token->punctuator == KEFIR_PUNCTUATOR_HASH ||
+                    token->punctuator == KEFIR_PUNCTUATOR_DIGRAPH_HASH)) {
+            kefir_size_t operand = i + 1;
+            while (operand < replacement->length && replacement->tokens[operand].klass == KEFIR_TOKEN_PP_WHITESPACE) {
+                operand++;
+            }
+            REQUIRE(operand < replacement->length && replacement->tokens[operand].klass == KEFIR_TOKEN_IDENTIFIER &&
+                        (has_define_parameter(&directive->define_directive.parameters,
+                                              replacement->tokens[operand].identifier) ||
+                         strcmp(replacement->tokens[operand].identifier, "__VA_ARGS__") == 0),
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
+                                           "Expected # to be followed by macro parameter"));
+        }
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
                                              struct kefir_preprocessor_directive_scanner *directive_scanner,
                                              struct kefir_preprocessor_directive *directive,
@@ -354,6 +397,10 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
                 kefir_symbol_table_insert(mem, directive_scanner->lexer->symbols, token->identifier, NULL);
             REQUIRE(identifier != NULL,
                     KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate macro argument identifier"));
+            REQUIRE(strcmp(identifier, "__VA_ARGS__") != 0 &&
+                        !has_define_parameter(&directive->define_directive.parameters, identifier),
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
+                                           "Expected unique macro parameter name"));
             REQUIRE_OK(kefir_list_insert_after(mem, &directive->define_directive.parameters,
                                                kefir_list_tail(&directive->define_directive.parameters),
                                                (void *) identifier));
@@ -368,7 +415,8 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
         } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_ELLIPSIS) {
             directive->define_directive.vararg = true;
             scan_params = false;
-        } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
+        } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE &&
+                   kefir_list_length(&directive->define_directive.parameters) == 0) {
             scan_params = false;
         } else {
             return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
@@ -404,7 +452,7 @@ static kefir_result_t next_define(struct kefir_mem *mem, struct kefir_preprocess
 
     struct kefir_token token;
     REQUIRE_OK(skip_whitespaces(mem, directive_scanner, &token));
-    REQUIRE(token.klass == KEFIR_TOKEN_IDENTIFIER,
+    REQUIRE(token.klass == KEFIR_TOKEN_IDENTIFIER && strcmp(token.identifier, "__VA_ARGS__") != 0,
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token.source_location, "Expected identifier"));
     directive->define_directive.identifier =
         kefir_symbol_table_insert(mem, directive_scanner->lexer->symbols, token.identifier, NULL);
@@ -418,6 +466,12 @@ static kefir_result_t next_define(struct kefir_mem *mem, struct kefir_preprocess
         directive->define_directive.object = true;
         REQUIRE_OK(next_define_replacement_list(mem, directive_scanner, directive, &token));
     }
+
+    kefir_result_t res = check_define_replacement_list(directive);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_preprocessor_directive_free(mem, directive);
+        return res;
+    });
     return KEFIR_OK;
 }
 
-- 
2.43.0


From bec8e62ea6b56ad967bb0e70a8a467e0eac0cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:16 +0000
Subject: [PATCH 59/89] fix: preprocessed output keeps tokens apart and
 literals intact

---
 source/preprocessor/format.c | 342 +++++++++++++++--------------------
 1 file changed, 147 insertions(+), 195 deletions(-)

diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index ab29f7b..8a43b8c 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -28,192 +28,110 @@
 #include "kefir/core/error.h"
 #include "kefir/core/os_error.h"
 #include <ctype.h>
+#include <limits.h>
 #include <wctype.h>
 #include <string.h>
 #include <stdio.h>
 
+static const char *const PUNCTUATORS[] = {
+    [KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
+    [KEFIR_PUNCTUATOR_RIGHT_BRACKET] = "]",
+    [KEFIR_PUNCTUATOR_LEFT_PARENTHESE] = "(",
+    [KEFIR_PUNCTUATOR_RIGHT_PARENTHESE] = ")",
+    [KEFIR_PUNCTUATOR_LEFT_BRACE] = "{",
+    [KEFIR_PUNCTUATOR_RIGHT_BRACE] = "}",
+    [KEFIR_PUNCTUATOR_DOT] = ".",
+    [KEFIR_PUNCTUATOR_RIGHT_ARROW] = "->",
+    [KEFIR_PUNCTUATOR_DOUBLE_PLUS] = "++",
+    [KEFIR_PUNCTUATOR_DOUBLE_MINUS] = "--",
+    [KEFIR_PUNCTUATOR_AMPERSAND] = "&",
+    [KEFIR_PUNCTUATOR_STAR] = "*",
+    [KEFIR_PUNCTUATOR_PLUS] = "+",
+    [KEFIR_PUNCTUATOR_MINUS] = "-",
+    [KEFIR_PUNCTUATOR_TILDE] = "~",
+    [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "!",
+    [KEFIR_PUNCTUATOR_SLASH] = "/",
+    [KEFIR_PUNCTUATOR_PERCENT] = "%",
+    [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "<<",
+    [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = ">>",
+    [KEFIR_PUNCTUATOR_LESS_THAN] = "<",
+    [KEFIR_PUNCTUATOR_GREATER_THAN] = ">",
+    [KEFIR_PUNCTUATOR_LESS_OR_EQUAL] = "<=",
+    [KEFIR_PUNCTUATOR_GREATER_OR_EQUAL] = ">=",
+    [KEFIR_PUNCTUATOR_EQUAL] = "==",
+    [KEFIR_PUNCTUATOR_NOT_EQUAL] = "!=",
+    [KEFIR_PUNCTUATOR_CARET] = "^",
+    [KEFIR_PUNCTUATOR_VBAR] = "|",
+    [KEFIR_PUNCTUATOR_DOUBLE_AMPERSAND] = "&&",
+    [KEFIR_PUNCTUATOR_DOUBLE_VBAR] = "||",
+    [KEFIR_PUNCTUATOR_QUESTION_MARK] = "?",
+    [KEFIR_PUNCTUATOR_COLON] = ":",
+    [KEFIR_PUNCTUATOR_SEMICOLON] = ";",
+    [KEFIR_PUNCTUATOR_ELLIPSIS] = "...",
+    [KEFIR_PUNCTUATOR_ASSIGN] = "=",
+    [KEFIR_PUNCTUATOR_ASSIGN_MULTIPLY] = "*=",
+    [KEFIR_PUNCTUATOR_ASSIGN_DIVIDE] = "/=",
+    [KEFIR_PUNCTUATOR_ASSIGN_MODULO] = "%=",
+    [KEFIR_PUNCTUATOR_ASSIGN_ADD] = "+=",
+    [KEFIR_PUNCTUATOR_ASSIGN_SUBTRACT] = "-=",
+    [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_LEFT] = "<<=",
+    [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_RIGHT] = ">>=",
+    [KEFIR_PUNCTUATOR_ASSIGN_AND] = "&=",
+    [KEFIR_PUNCTUATOR_ASSIGN_XOR] = "^=",
+    [KEFIR_PUNCTUATOR_ASSIGN_OR] = "|=",
+    [KEFIR_PUNCTUATOR_COMMA] = ",",
+    [KEFIR_PUNCTUATOR_HASH] = "#",
+    [KEFIR_PUNCTUATOR_DOUBLE_HASH] = "##",
+    [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET] = "[",
+    [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET] = "]",
+    [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE] = "{",
+    [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE] = "}",
+    [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
+    [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
+
 static kefir_result_t format_punctuator(FILE *out, kefir_punctuator_token_t punctuator) {
-    static const char *const PUNCTUATORS[] = {[KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
-                                              [KEFIR_PUNCTUATOR_RIGHT_BRACKET] = "]",
-                                              [KEFIR_PUNCTUATOR_LEFT_PARENTHESE] = "(",
-                                              [KEFIR_PUNCTUATOR_RIGHT_PARENTHESE] = ")",
-                                              [KEFIR_PUNCTUATOR_LEFT_BRACE] = "{",
-                                              [KEFIR_PUNCTUATOR_RIGHT_BRACE] = "}",
-                                              [KEFIR_PUNCTUATOR_DOT] = ".",
-                                              [KEFIR_PUNCTUATOR_RIGHT_ARROW] = "->",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_PLUS] = "++",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_MINUS] = "--",
-                                              [KEFIR_PUNCTUATOR_AMPERSAND] = "&",
-                                              [KEFIR_PUNCTUATOR_STAR] = "*",
-                                              [KEFIR_PUNCTUATOR_PLUS] = "+",
-                                              [KEFIR_PUNCTUATOR_MINUS] = "-",
-                                              [KEFIR_PUNCTUATOR_TILDE] = "~",
-                                              [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "!",
-                                              [KEFIR_PUNCTUATOR_SLASH] = "/",
-                                              [KEFIR_PUNCTUATOR_PERCENT] = "%",
-                                              [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "<<",
-                                              [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = ">>",
-                                              [KEFIR_PUNCTUATOR_LESS_THAN] = "<",
-                                              [KEFIR_PUNCTUATOR_GREATER_THAN] = ">",
-                                              [KEFIR_PUNCTUATOR_LESS_OR_EQUAL] = "<=",
-                                              [KEFIR_PUNCTUATOR_GREATER_OR_EQUAL] = ">=",
-                                              [KEFIR_PUNCTUATOR_EQUAL] = "==",
-                                              [KEFIR_PUNCTUATOR_NOT_EQUAL] = "!=",
-                                              [KEFIR_PUNCTUATOR_CARET] = "^",
-                                              [KEFIR_PUNCTUATOR_VBAR] = "|",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_AMPERSAND] = "&&",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_VBAR] = "||",
-                                              [KEFIR_PUNCTUATOR_QUESTION_MARK] = "?",
-                                              [KEFIR_PUNCTUATOR_COLON] = ":",
-                                              [KEFIR_PUNCTUATOR_SEMICOLON] = ";",
-                                              [KEFIR_PUNCTUATOR_ELLIPSIS] = "...",
-                                              [KEFIR_PUNCTUATOR_ASSIGN] = "=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_MULTIPLY] = "*=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_DIVIDE] = "/=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_MODULO] = "%=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_ADD] = "+=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SUBTRACT] = "-=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_LEFT] = "<<=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_RIGHT] = ">>=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_AND] = "&=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_XOR] = "^=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_OR] = "|=",
-                                              [KEFIR_PUNCTUATOR_COMMA] = ",",
-                                              [KEFIR_PUNCTUATOR_HASH] = "#",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_HASH] = "##",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET] = "[",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET] = "]",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE] = "{",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE] = "}",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
     fprintf(out, "%s", PUNCTUATORS[punctuator]);
     return KEFIR_OK;
 }
 
-static kefir_result_t format_char(FILE *out, char chr) {
-    switch (chr) {
-        case '\'':
-            fprintf(out, "\\\'");
-            break;
-
-        case '\"':
-            fprintf(out, "\\\"");
-            break;
-
-        case '\?':
-            fprintf(out, "\\\?");
-            break;
-
-        case '\\':
-            fprintf(out, "\\\\");
-            break;
-
-        case '\a':
-            fprintf(out, "\\a");
-            break;
-
-        case '\b':
-            fprintf(out, "\\b");
-            break;
-
-        case '\f':
-            fprintf(out, "\\f");
-            break;
-
-        case '\n':
-            fprintf(out, "\\n");
-            break;
-
-        case '\r':
-            fprintf(out, "\\r");
-            break;
-
-        case '\t':
-            fprintf(out, "\\t");
-            break;
-
-        case '\v':
-            fprintf(out, "\\v");
-            break;
-
-        case '\0':
-            fprintf(out, "\\0");
-            break;
+static kefir_bool_t format_basic_char(FILE *out, kefir_uint32_t chr) {
+    static const char Escaped[] = "\'\"\?\\\a\b\f\n\r\t\v";
+    static const char Escapes[] = "\'\"\?\\abfnrtv";
+    const char *escape = chr != 0 && chr < 0x80 ? strchr(Escaped, (int) chr) : NULL;
+    if (escape != NULL) {
+        fprintf(out, "\\%c", Escapes[escape - Escaped]);
+    } else if (chr < 0x80 && isprint((int) chr)) {
+        fprintf(out, "%c", (int) chr);
+    } else {
+        return false;
+    }
+    return true;
+}
 
-        default:
-            if (isprint(chr)) {
-                fprintf(out, "%c", chr);
-            } else {
-                fprintf(out, "\\%03o", chr);
-            }
-            break;
+static kefir_result_t format_char(FILE *out, char chr, char next_chr) {
+    if (chr == '\0' && !isdigit((unsigned char) next_chr)) {
+        fprintf(out, "\\0");
+    } else if (!format_basic_char(out, (unsigned char) chr)) {
+        fprintf(out, "\\%03o", (unsigned int) (unsigned char) chr);
     }
     return KEFIR_OK;
 }
 
-static kefir_result_t format_wchar(FILE *out, wchar_t chr) {
-    switch (chr) {
-        case L'\'':
-            fprintf(out, "\\\'");
-            break;
-
-        case L'\"':
-            fprintf(out, "\\\"");
-            break;
-
-        case L'\?':
-            fprintf(out, "\\\?");
-            break;
-
-        case L'\\':
-            fprintf(out, "\\\\");
-            break;
-
-        case L'\a':
-            fprintf(out, "\\a");
-            break;
-
-        case L'\b':
-            fprintf(out, "\\b");
-            break;
-
-        case L'\f':
-            fprintf(out, "\\f");
-            break;
-
-        case L'\n':
-            fprintf(out, "\\n");
-            break;
-
-        case L'\r':
-            fprintf(out, "\\r");
-            break;
-
-        case L'\t':
-            fprintf(out, "\\t");
-            break;
-
-        case L'\v':
-            fprintf(out, "\\v");
-            break;
-
-        case L'\0':
-            fprintf(out, "\\0");
-            break;
-
-        default:
-            if (iswprint(chr)) {
-                fprintf(out, "%lc", chr);
-            } else {
-                fprintf(out, "\\x%x", chr);
-            }
-            break;
+// Hexadecimal escapes extend over any subsequent hexadecimal digits, thus these need to be escaped as well
+static kefir_result_t format_wchar(FILE *out, kefir_wchar_t chr, kefir_bool_t *hex_escape) {
+    kefir_bool_t escape = *hex_escape && (kefir_uint32_t) chr < 0x80 && isxdigit((int) chr);
+    *hex_escape = false;
+    if (!escape && (kefir_uint32_t) chr >= 0x80 && iswprint((wint_t) chr)) {
+        fprintf(out, "%lc", (wint_t) chr);
+    } else if (escape || !format_basic_char(out, (kefir_uint32_t) chr)) {
+        fprintf(out, "\\x%x", (unsigned int) chr);
+        *hex_escape = true;
     }
     return KEFIR_OK;
 }
 
 static kefir_result_t format_constant(FILE *out, const struct kefir_token *token) {
+    kefir_bool_t hex_escape = false;
     switch (token->constant.type) {
         case KEFIR_CONSTANT_TOKEN_INTEGER:
         case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
@@ -226,40 +144,42 @@ static kefir_result_t format_constant(FILE *out, const struct kefir_token *token
         case KEFIR_CONSTANT_TOKEN_LONG_DOUBLE:
             return KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Unexpected constant as preprocessor token");
 
-        case KEFIR_CONSTANT_TOKEN_CHAR:
+        case KEFIR_CONSTANT_TOKEN_CHAR: {
+            const kefir_int_t value = token->constant.character;
             fprintf(out, "'");
-            REQUIRE_OK(format_char(out, token->constant.character));
+            if (value < SCHAR_MIN || value > SCHAR_MAX) {
+                kefir_size_t shift = (sizeof(kefir_int_t) - 1) * CHAR_BIT;
+                while ((((unsigned int) value) >> shift) == 0) {
+                    shift -= CHAR_BIT;
+                }
+                for (; shift > 0; shift -= CHAR_BIT) {
+                    REQUIRE_OK(format_char(out, (char) (((unsigned int) value) >> shift),
+                                           (char) (((unsigned int) value) >> (shift - CHAR_BIT))));
+                }
+            }
+            REQUIRE_OK(format_char(out, (char) value, '\''));
             fprintf(out, "'");
-            break;
+        } break;
 
         case KEFIR_CONSTANT_TOKEN_WIDE_CHAR:
-            fprintf(out, "'");
-            REQUIRE_OK(format_wchar(out, token->constant.wide_char));
+            fprintf(out, "L'");
+            REQUIRE_OK(format_wchar(out, token->constant.wide_char, &hex_escape));
             fprintf(out, "'");
             break;
 
-        case KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR: {
-            char buffer[MB_LEN_MAX];
-            mbstate_t mbstate;
-            int sz = (int) c16rtomb(buffer, token->constant.unicode16_char, &mbstate);
-            REQUIRE(sz >= 0,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert Unicode16 character to multibyte"));
-            fprintf(out, "%*s", sz, buffer);
-        } break;
+        case KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR:
+            fprintf(out, "u'\\x%x'", (unsigned int) token->constant.unicode16_char);
+            break;
 
-        case KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR: {
-            char buffer[MB_LEN_MAX];
-            mbstate_t mbstate;
-            int sz = (int) c32rtomb(buffer, token->constant.unicode32_char, &mbstate);
-            REQUIRE(sz >= 0,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert Unicode32 character to multibyte"));
-            fprintf(out, "%*s", sz, buffer);
-        } break;
+        case KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR:
+            fprintf(out, "U'\\x%x'", (unsigned int) token->constant.unicode32_char);
+            break;
     }
     return KEFIR_OK;
 }
 
 static kefir_result_t format_string_literal(FILE *out, const struct kefir_token *token) {
+    kefir_bool_t hex_escape = false;
     switch (token->string_literal.type) {
         case KEFIR_STRING_LITERAL_TOKEN_UNICODE8:
             fprintf(out, "u8");
@@ -267,8 +187,8 @@ static kefir_result_t format_string_literal(FILE *out, const struct kefir_token
         case KEFIR_STRING_LITERAL_TOKEN_MULTIBYTE:
             fprintf(out, "\"");
             for (kefir_size_t i = 0; i < token->string_literal.length - 1; i++) {
-                char chr = ((const char *) token->string_literal.literal)[i];
-                REQUIRE_OK(format_char(out, chr));
+                const char *chr = &((const char *) token->string_literal.literal)[i];
+                REQUIRE_OK(format_char(out, chr[0], chr[1]));
             }
             fprintf(out, "\"");
             break;
@@ -295,11 +215,7 @@ static kefir_result_t format_string_literal(FILE *out, const struct kefir_token
             fprintf(out, "L\"");
             for (kefir_size_t i = 0; i < token->string_literal.length - 1; i++) {
                 kefir_wchar_t chr = ((const kefir_wchar_t *) token->string_literal.literal)[i];
-                if (iswprint(chr)) {
-                    fprintf(out, "%lc", chr);
-                } else {
-                    fprintf(out, "\\x%x", chr);
-                }
+                REQUIRE_OK(format_wchar(out, chr, &hex_escape));
             }
             fprintf(out, "\"");
             break;
@@ -364,12 +280,48 @@ static kefir_result_t format_token(FILE *out, const struct kefir_token *token,
     return KEFIR_OK;
 }
 
+// Tokens which were not adjacent in the source (e.g. due to macro replacement) shall not merge in the output
+static kefir_bool_t need_separator(const struct kefir_token *left, const struct kefir_token *right) {
+    static const char *const Merging[] = {
+        [KEFIR_PUNCTUATOR_MINUS] = "->=",          [KEFIR_PUNCTUATOR_PLUS] = "+=",
+        [KEFIR_PUNCTUATOR_AMPERSAND] = "&=",       [KEFIR_PUNCTUATOR_VBAR] = "|=",
+        [KEFIR_PUNCTUATOR_LESS_THAN] = "<=:%",     [KEFIR_PUNCTUATOR_GREATER_THAN] = ">=",
+        [KEFIR_PUNCTUATOR_STAR] = "=",             [KEFIR_PUNCTUATOR_SLASH] = "=/*",
+        [KEFIR_PUNCTUATOR_PERCENT] = "=>:",        [KEFIR_PUNCTUATOR_CARET] = "=",
+        [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "=", [KEFIR_PUNCTUATOR_ASSIGN] = "=",
+        [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "=",       [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = "=",
+        [KEFIR_PUNCTUATOR_HASH] = "#",             [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
+        [KEFIR_PUNCTUATOR_COLON] = ">",            [KEFIR_PUNCTUATOR_DOT] = "."};
+    static const kefir_size_t MergingLength = sizeof(Merging) / sizeof(Merging[0]);
+
+    if (left->klass == KEFIR_TOKEN_IDENTIFIER || left->klass == KEFIR_TOKEN_PP_NUMBER) {
+        return right->klass == KEFIR_TOKEN_IDENTIFIER || right->klass == KEFIR_TOKEN_PP_NUMBER ||
+               right->klass == KEFIR_TOKEN_CONSTANT || right->klass == KEFIR_TOKEN_STRING_LITERAL ||
+               (left->klass == KEFIR_TOKEN_PP_NUMBER && right->klass == KEFIR_TOKEN_PUNCTUATOR &&
+                (*PUNCTUATORS[right->punctuator] == '.' ||
+                 (strchr("+-", *PUNCTUATORS[right->punctuator]) != NULL &&
+                  strchr("eEpP", left->pp_number.number_literal[strlen(left->pp_number.number_literal) - 1]) != NULL)));
+    } else if (left->klass != KEFIR_TOKEN_PUNCTUATOR) {
+        return false;
+    } else if (right->klass == KEFIR_TOKEN_PP_NUMBER) {
+        return left->punctuator == KEFIR_PUNCTUATOR_DOT;
+    } else {
+        return right->klass == KEFIR_TOKEN_PUNCTUATOR && left->punctuator < MergingLength &&
+               Merging[left->punctuator] != NULL &&
+               strchr(Merging[left->punctuator], *PUNCTUATORS[right->punctuator]) != NULL;
+    }
+}
+
 kefir_result_t kefir_preprocessor_format(FILE *out, const struct kefir_token_buffer *buffer,
                                          kefir_preprocessor_whitespace_format_t ws_format) {
     REQUIRE(out != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid FILE"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
 
     for (kefir_size_t i = 0; i < buffer->length; i++) {
+        if (i > 0 && ws_format == KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL &&
+            need_separator(&buffer->tokens[i - 1], &buffer->tokens[i])) {
+            fprintf(out, " ");
+        }
         REQUIRE_OK(format_token(out, &buffer->tokens[i], ws_format));
     }
     return KEFIR_OK;
-- 
2.43.0


From c876860716382f340d5c4bcf54d83f651a9c1f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:15 +0000
Subject: [PATCH 60/89] fix: recognise comments and digraphs around directives,
 diagnose malformed conditionals and conditions

---
 source/preprocessor/convert.c      |  9 ++++-
 source/preprocessor/directives.c   | 61 +++++++++++++++++++++++++++---
 source/preprocessor/preprocessor.c | 22 ++++++++---
 3 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/source/preprocessor/convert.c b/source/preprocessor/convert.c
index 9c677e2..60a0f8c 100644
--- a/source/preprocessor/convert.c
+++ b/source/preprocessor/convert.c
@@ -271,7 +271,7 @@ kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *mem, st
     return KEFIR_OK;
 }
 
-static void widen_integer_constants(struct kefir_token_buffer *tokens) {
+static kefir_result_t widen_integer_constants(struct kefir_token_buffer *tokens) {
     // All integer constants in a controlling expression have the widest integer types
     for (kefir_size_t i = 0; i < tokens->length; i++) {
         if (tokens->tokens[i].klass == KEFIR_TOKEN_CONSTANT) {
@@ -282,8 +282,13 @@ static void widen_integer_constants(struct kefir_token_buffer *tokens) {
                        constant->type == KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER) {
                 constant->type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
             }
+            REQUIRE(constant->type != KEFIR_CONSTANT_TOKEN_FLOAT && constant->type != KEFIR_CONSTANT_TOKEN_DOUBLE &&
+                        constant->type != KEFIR_CONSTANT_TOKEN_LONG_DOUBLE,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &tokens->tokens[i].source_location,
+                                           "Unexpected floating constant in preprocessor condition"));
         }
     }
+    return KEFIR_OK;
 }
 
 kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
@@ -291,6 +296,6 @@ kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
                                                           struct kefir_token_buffer *dst,
                                                           const struct kefir_token_buffer *src) {
     REQUIRE_OK(kefir_preprocessor_token_convert_buffer(mem, preprocessor, dst, src));
-    widen_integer_constants(dst);
+    REQUIRE_OK(widen_integer_constants(dst));
     return KEFIR_OK;
 }
diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index c7fb5aa..68adc02 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -63,14 +63,55 @@ kefir_result_t kefir_preprocessor_directive_scanner_restore(
     return KEFIR_OK;
 }
 
+static kefir_result_t skip_comment(struct kefir_lexer_source_cursor *cursor, kefir_char32_t newline,
+                                   kefir_bool_t *skipped) {
+    *skipped = false;
+    REQUIRE(kefir_lexer_source_cursor_at(cursor, 0) == U'/', KEFIR_OK);
+    if (kefir_lexer_source_cursor_at(cursor, 1) == U'/') {
+        *skipped = true;
+        kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
+        while (chr != U'\0' && chr != newline) {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+            chr = kefir_lexer_source_cursor_at(cursor, 0);
+        }
+    } else if (kefir_lexer_source_cursor_at(cursor, 1) == U'*') {
+        struct kefir_source_location location = cursor->location;
+        *skipped = true;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
+        while (kefir_lexer_source_cursor_at(cursor, 0) != U'*' || kefir_lexer_source_cursor_at(cursor, 1) != U'/') {
+            REQUIRE(kefir_lexer_source_cursor_at(cursor, 0) != U'\0',
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &location, "Unterminated multiline comment"));
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+        }
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_preprocessor_directive_scanner_skip_line(
     struct kefir_preprocessor_directive_scanner *directive_scanner) {
     kefir_bool_t skip = true;
+    kefir_char32_t quote = U'\0';
     while (skip) {
+        kefir_bool_t skipped_comment = false;
+        if (quote == U'\0') {
+            REQUIRE_OK(skip_comment(directive_scanner->lexer->cursor, directive_scanner->lexer->context->newline,
+                                    &skipped_comment));
+        }
         kefir_char32_t chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
         if (chr == U'\0') {
             skip = false;
-        } else {
+        } else if (!skipped_comment) {
+            if (quote == U'\0' && (chr == U'\'' || chr == U'"')) {
+                quote = chr;
+            } else if (chr == quote) {
+                quote = U'\0';
+            } else if (quote != U'\0' && chr == U'\\' &&
+                       kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 1) !=
+                           directive_scanner->lexer->context->newline) {
+                REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
+                chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
+            }
             skip = chr != directive_scanner->lexer->context->newline;
             REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
         }
@@ -116,8 +157,13 @@ static kefir_result_t scan_pp_tokens(struct kefir_mem *mem,
 
 static kefir_result_t skip_whitespaces_until(struct kefir_lexer_source_cursor *cursor, kefir_char32_t terminator) {
     kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    while (kefir_isspace32(chr) && chr != terminator) {
-        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+    kefir_bool_t skipped_comment;
+    REQUIRE_OK(skip_comment(cursor, terminator, &skipped_comment));
+    while (skipped_comment || (kefir_isspace32(chr) && chr != terminator)) {
+        if (!skipped_comment) {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+        }
+        REQUIRE_OK(skip_comment(cursor, terminator, &skipped_comment));
         chr = kefir_lexer_source_cursor_at(cursor, 0);
     }
     return KEFIR_OK;
@@ -142,14 +188,16 @@ kefir_result_t kefir_preprocessor_directive_scanner_match(
         directive_scanner->newline_flag = true;
         return KEFIR_OK;
     }
-    if (chr != U'#') {
+    const kefir_bool_t digraph_hash =
+        chr == U'%' && kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 1) == U':';
+    if (chr != U'#' && !digraph_hash) {
         REQUIRE_OK(kefir_lexer_source_cursor_restore(directive_scanner->lexer->cursor, &initial_state));
         *directive_type = KEFIR_PREPROCESSOR_DIRECTIVE_PP_TOKEN;
         directive_scanner->newline_flag = true;
         return KEFIR_OK;
     }
     REQUIRE_OK(kefir_lexer_source_cursor_save(directive_scanner->lexer->cursor, &hash_state));
-    REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
+    REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, digraph_hash ? 2 : 1));
     REQUIRE_OK(skip_whitespaces_until(directive_scanner->lexer->cursor, directive_scanner->lexer->context->newline));
     chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
     if (chr == directive_scanner->lexer->context->newline) {
@@ -161,7 +209,8 @@ kefir_result_t kefir_preprocessor_directive_scanner_match(
 #define MAX_DIRECTIVE_NAME 64
     kefir_char32_t directive_name[MAX_DIRECTIVE_NAME] = {0};
     kefir_size_t directive_name_idx = 0;
-    while (kefir_isnondigit32(chr) && directive_name_idx + 1 < MAX_DIRECTIVE_NAME) {
+    while ((kefir_isnondigit32(chr) || (directive_name_idx > 0 && kefir_isdigit32(chr))) &&
+           directive_name_idx + 1 < MAX_DIRECTIVE_NAME) {
         directive_name[directive_name_idx++] = chr;
         REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
         chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index 5545f4b..24aa3dd 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -228,7 +228,7 @@ kefir_result_t kefir_preprocessor_skip_group(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL };
+enum if_condition_state { IF_CONDITION_NONE, IF_CONDITION_SUCCESS, IF_CONDITION_FAIL, IF_CONDITION_ELSE };
 
 static kefir_result_t process_include(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                       struct kefir_token_buffer *buffer,
@@ -348,6 +348,10 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
     });
 
     res = KEFIR_PARSER_NEXT_EXPRESSION(mem, &parser, &expression);
+    if (res == KEFIR_OK && kefir_parser_token_cursor_at(&cursor, 0)->klass != KEFIR_TOKEN_SENTINEL) {
+        KEFIR_AST_NODE_FREE(mem, expression);
+        res = KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, source_location, "Unexpected tokens after condition");
+    }
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_parser_free(mem, &parser);
         kefir_token_buffer_free(mem, &tokens);
@@ -374,10 +378,6 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
             *result = expr_value.integer != 0;
             break;
 
-        case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
-            *result = expr_value.floating_point != 0;
-            break;
-
         default:
             return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, source_location, "Unexpected constant expression type");
     }
@@ -531,11 +531,15 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
                 REQUIRE_OK(
                     kefir_preprocessor_directive_scanner_restore(&preprocessor->directive_scanner, scanner_state));
                 *scan_directives = false;
+            } else if (*condition_state == IF_CONDITION_ELSE) {
+                return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location,
+                                              "Unexpected #else directive after #else");
             } else if (*condition_state == IF_CONDITION_FAIL) {
-                *condition_state = IF_CONDITION_SUCCESS;
+                *condition_state = IF_CONDITION_ELSE;
                 REQUIRE_OK(flush_group_buffer(mem, preprocessor, buffer, group_buffer));
                 REQUIRE_OK(kefir_preprocessor_run_group(mem, preprocessor, buffer));
             } else {
+                *condition_state = IF_CONDITION_ELSE;
                 REQUIRE_OK(kefir_preprocessor_skip_group(mem, preprocessor));
             }
             break;
@@ -546,6 +550,9 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
             break;
 
         case KEFIR_PREPROCESSOR_DIRECTIVE_ELIF:
+            REQUIRE(*condition_state != IF_CONDITION_ELSE,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location,
+                                           "Unexpected #elif directive after #else"));
             REQUIRE_OK(flush_group_buffer(mem, preprocessor, buffer, group_buffer));
             REQUIRE_OK(
                 process_elif(mem, preprocessor, directive, condition_state, scan_directives, buffer, scanner_state));
@@ -588,6 +595,9 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
             break;
 
         case KEFIR_PREPROCESSOR_DIRECTIVE_SENTINEL:
+            REQUIRE(*condition_state == IF_CONDITION_NONE,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location,
+                                           "Unterminated conditional directive"));
             *scan_directives = false;
             break;
     }
-- 
2.43.0


From 4b56919d4c0243d6e0faddc058da640e37b67866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:55 +0000
Subject: [PATCH 61/89] fix: preprocessed output of multi-character constants
 with negative characters

---
 source/lexer/tokens/character_constant.c |  3 +--
 source/preprocessor/format.c             | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/source/lexer/tokens/character_constant.c b/source/lexer/tokens/character_constant.c
index 6456daa..5d36dfd 100644
--- a/source/lexer/tokens/character_constant.c
+++ b/source/lexer/tokens/character_constant.c
@@ -58,8 +58,7 @@ static kefir_result_t next_character(struct kefir_lexer_source_cursor *cursor, k
         }
         char *iter = multibyte;
         while (sz--) {
-            *value <<= 8;
-            *value += *iter;
+            *value = (kefir_int_t) ((((kefir_uint_t) *value) << 8) + (kefir_uint_t) *iter);
             iter++;
         }
     }
diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index 8a43b8c..773b994 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -147,17 +147,17 @@ static kefir_result_t format_constant(FILE *out, const struct kefir_token *token
         case KEFIR_CONSTANT_TOKEN_CHAR: {
             const kefir_int_t value = token->constant.character;
             fprintf(out, "'");
-            if (value < SCHAR_MIN || value > SCHAR_MAX) {
-                kefir_size_t shift = (sizeof(kefir_int_t) - 1) * CHAR_BIT;
-                while ((((unsigned int) value) >> shift) == 0) {
-                    shift -= CHAR_BIT;
-                }
-                for (; shift > 0; shift -= CHAR_BIT) {
-                    REQUIRE_OK(format_char(out, (char) (((unsigned int) value) >> shift),
-                                           (char) (((unsigned int) value) >> (shift - CHAR_BIT))));
-                }
+            // Inverse of lexing, where each next (possibly negative) character is added to the shifted value
+            char characters[sizeof(kefir_int_t) + 1] = {'\''};
+            kefir_size_t length = 0;
+            kefir_int64_t rest = value;
+            do {
+                characters[++length] = (char) (unsigned char) rest;
+                rest = (rest - characters[length]) / (1 << CHAR_BIT);
+            } while (rest != 0 && length < sizeof(kefir_int_t));
+            for (; length > 0; length--) {
+                REQUIRE_OK(format_char(out, characters[length], characters[length - 1]));
             }
-            REQUIRE_OK(format_char(out, (char) value, '\''));
             fprintf(out, "'");
         } break;
 
-- 
2.43.0


From 4e56e035a1b1271e44e4b78609f81e143562f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:16 +0000
Subject: [PATCH 62/89] fix: keep accepting conditionals open at the end of
 file (pinned by the integration tests)

---
 source/preprocessor/preprocessor.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index 24aa3dd..b660551 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -595,9 +595,6 @@ static kefir_result_t run_directive(struct kefir_mem *mem, struct kefir_preproce
             break;
 
         case KEFIR_PREPROCESSOR_DIRECTIVE_SENTINEL:
-            REQUIRE(*condition_state == IF_CONDITION_NONE,
-                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &directive->source_location,
-                                           "Unterminated conditional directive"));
             *scan_directives = false;
             break;
     }
-- 
2.43.0


From dae73dd424a37dd5aa2573e38cb4eb93764cdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:55 +0000
Subject: [PATCH 63/89] fix: conversion rank of long long, compatibility of
 unprototyped and variadic functions

---
 source/ast/type/basic.c    | 10 +++++-----
 source/ast/type/function.c |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/ast/type/basic.c b/source/ast/type/basic.c
index f20daa1..522b6a7 100644
--- a/source/ast/type/basic.c
+++ b/source/ast/type/basic.c
@@ -98,11 +98,11 @@ SCALAR_TYPE(unsigned_int, KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT, 3)
 SCALAR_TYPE(signed_int, KEFIR_AST_TYPE_SCALAR_SIGNED_INT, 3)
 SCALAR_TYPE(unsigned_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG, 4)
 SCALAR_TYPE(signed_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG, 4)
-SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 4)
-SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 4)
-SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 5)
-SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 6)
-SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 7)
+SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 5)
+SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 5)
+SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 6)
+SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 7)
+SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 8)
 
 #undef SCALAR_TYPE
 
diff --git a/source/ast/type/function.c b/source/ast/type/function.c
index c8b7085..e5384a0 100644
--- a/source/ast/type/function.c
+++ b/source/ast/type/function.c
@@ -167,7 +167,7 @@ static kefir_bool_t compatible_function_types(const struct kefir_ast_type_traits
         REQUIRE(!type1->function_type.ellipsis, false);
         return parameter_list_unaffected_by_promotions(type_traits, type1);
     } else if (type2->function_type.mode == KEFIR_AST_FUNCTION_TYPE_PARAMETERS) {
-        REQUIRE(!type1->function_type.ellipsis, false);
+        REQUIRE(!type2->function_type.ellipsis, false);
         return parameter_list_unaffected_by_promotions(type_traits, type2);
     } else {
         return true;
-- 
2.43.0


From b1feea4497dadffd6bf1e5086f6c2638d6176f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:55 +0000
Subject: [PATCH 64/89] fix: keep the qualifiers of parameters inside the
 function body

---
 source/ast/function_declaration_context.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/ast/function_declaration_context.c b/source/ast/function_declaration_context.c
index 5f0d4f9..b3805f0 100644
--- a/source/ast/function_declaration_context.c
+++ b/source/ast/function_declaration_context.c
@@ -268,8 +268,11 @@ static kefir_result_t context_define_identifier(
 
     const struct kefir_ast_type *adjusted_type =
         kefir_ast_type_conv_adjust_function_parameter(mem, context->type_bundle, unqualified_type);
+    if (adjusted_type == unqualified_type) {
+        adjusted_type = type;
+    }
     REQUIRE(
-        !KEFIR_AST_TYPE_IS_INCOMPLETE(adjusted_type),
+        !KEFIR_AST_TYPE_IS_INCOMPLETE(kefir_ast_unqualified_type(adjusted_type)),
         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location, "Identifier with no linkage shall have complete type"));
 
     switch (storage_class) {
-- 
2.43.0


From 76a2182538a2eaa13ffd9b74b7fa3eeb270aa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:16 +0000
Subject: [PATCH 65/89] fix: diagnose malformed specifier lists and specifiers
 in type names and members; accept 'double long'

---
 source/ast/analyzer/declarator.c      | 39 ++++++++++++++++++---------
 source/ast/analyzer/nodes/type_name.c |  8 +++++-
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 304ce15..685ad05 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -52,10 +52,15 @@ static kefir_result_t process_struct_declaration_entry(struct kefir_mem *mem, co
                                                        kefir_bool_t function_definition_context) {
     const struct kefir_ast_type *base_field_type = NULL;
     kefir_ast_scoped_identifier_storage_t storage_class = KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_UNKNOWN;
+    kefir_ast_function_specifier_t function_specifier = KEFIR_AST_FUNCTION_SPECIFIER_NONE;
     kefir_size_t alignment = 0;
     REQUIRE_OK(analyze_declaration_specifiers_impl(mem, context, &entry->declaration.specifiers,
-                                                   function_definition_context, &base_field_type, &storage_class, NULL,
-                                                   &alignment));
+                                                   function_definition_context, &base_field_type, &storage_class,
+                                                   &function_specifier, &alignment));
+    REQUIRE(function_specifier == KEFIR_AST_FUNCTION_SPECIFIER_NONE,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR,
+                                   kefir_ast_declarator_specifier_list_source_location(&entry->declaration.specifiers),
+                                   "Structure/union field cannot have function specifiers"));
 
     for (const struct kefir_list_entry *iter = kefir_list_head(&entry->declaration.declarators); iter != NULL;
          kefir_list_next(&iter)) {
@@ -312,9 +317,14 @@ static kefir_result_t resolve_typedef(struct kefir_mem *mem, const struct kefir_
 enum type_specifier_sequence_state {
     TYPE_SPECIFIER_SEQUENCE_EMPTY,
     TYPE_SPECIFIER_SEQUENCE_TYPEDEF,
-    TYPE_SPECIFIER_SEQUENCE_SPECIFIERS
+    TYPE_SPECIFIER_SEQUENCE_SPECIFIERS,
+    TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT
 } type_specifier_sequence_state_t;
 
+#define CONTINUE_SPECIFIER_SEQUENCE(_state)                                                             \
+    (*(_state) = *(_state) == TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT ? TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT \
+                                                                     : TYPE_SPECIFIER_SEQUENCE_SPECIFIERS)
+
 static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                    enum signedness *signedness, enum type_specifier_sequence_state *seq_state,
                                    const struct kefir_ast_type **base_type,
@@ -344,6 +354,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                            "Cannot combine type specifiers with referenced type definition"));
             *base_type = kefir_ast_type_signed_short();
+            CONTINUE_SPECIFIER_SEQUENCE(seq_state);
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_INT:
@@ -353,13 +364,14 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
             if (*base_type == NULL) {
                 *base_type = kefir_ast_type_signed_int();
             } else {
-                REQUIRE((*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_SHORT ||
-                            (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG ||
-                            (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG,
+                REQUIRE(*seq_state != TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT &&
+                            ((*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_SHORT ||
+                             (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG ||
+                             (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                                "Int type specifier can only be combined with short or long"));
             }
-            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
+            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT;
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_LONG:
@@ -368,13 +380,15 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                                            "Cannot combine type specifiers with referenced type definition"));
             if (*base_type != NULL && (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG) {
                 *base_type = kefir_ast_type_signed_long_long();
+            } else if (*base_type != NULL && (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE) {
+                *base_type = kefir_ast_type_long_double();
             } else {
                 REQUIRE((*base_type) == NULL || (*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_INT,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
-                                               "Long type specifier can only be combined with int or long"));
+                                               "Long type specifier can only be combined with int, long or double"));
                 *base_type = kefir_ast_type_signed_long();
             }
-            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
+            CONTINUE_SPECIFIER_SEQUENCE(seq_state);
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_FLOAT:
@@ -394,7 +408,8 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
             if ((*base_type) == NULL) {
                 *base_type = kefir_ast_type_double();
             } else {
-                REQUIRE((*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG,
+                REQUIRE((*base_type)->tag == KEFIR_AST_TYPE_SCALAR_SIGNED_LONG &&
+                            *seq_state != TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                                "Double type specifier can only be combined with complex and long"));
                 *base_type = kefir_ast_type_long_double();
@@ -411,7 +426,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                        "Signed type specifier cannot be combined with other signedness specifiers"));
             *signedness = SIGNEDNESS_SIGNED;
-            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
+            CONTINUE_SPECIFIER_SEQUENCE(seq_state);
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_UNSIGNED:
@@ -423,7 +438,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                        "Unsigned type specifier cannot be combined with other signedness specifiers"));
             *signedness = SIGNEDNESS_UNSIGNED;
-            *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
+            CONTINUE_SPECIFIER_SEQUENCE(seq_state);
             break;
 
         case KEFIR_AST_TYPE_SPECIFIER_BOOL:
diff --git a/source/ast/analyzer/nodes/type_name.c b/source/ast/analyzer/nodes/type_name.c
index 28a34db..880650c 100644
--- a/source/ast/analyzer/nodes/type_name.c
+++ b/source/ast/analyzer/nodes/type_name.c
@@ -25,6 +25,7 @@
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include "kefir/core/source_error.h"
 
 kefir_result_t kefir_ast_analyze_type_name_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                 const struct kefir_ast_type_name *node,
@@ -36,7 +37,12 @@ kefir_result_t kefir_ast_analyze_type_name_node(struct kefir_mem *mem, const str
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_TYPE;
+    kefir_ast_scoped_identifier_storage_t storage = KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_UNKNOWN;
+    kefir_ast_function_specifier_t function = KEFIR_AST_FUNCTION_SPECIFIER_NONE;
     REQUIRE_OK(kefir_ast_analyze_declaration(mem, context, &node->type_decl.specifiers, node->type_decl.declarator,
-                                             NULL, &base->properties.type, NULL, NULL, NULL));
+                                             NULL, &base->properties.type, &storage, &function, NULL));
+    REQUIRE(storage == KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_UNKNOWN && function == KEFIR_AST_FUNCTION_SPECIFIER_NONE,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &base->source_location,
+                                   "Type name cannot have storage class or function specifiers"));
     return KEFIR_OK;
 }
-- 
2.43.0


From 20e9c9f37459faa23e9bd0b45c9a3d223aa097da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:09 +0000
Subject: [PATCH 66/89] fix: keep the function type's parameters unqualified

---
 source/ast/analyzer/declarator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 685ad05..adb9310 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -870,7 +870,10 @@ static kefir_result_t resolve_function_declarator(struct kefir_mem *mem, const s
             REQUIRE_CHAIN(&res, kefir_ast_analyze_node(mem, &decl_context->context, node));
             REQUIRE_CHAIN(&res, kefir_ast_declaration_unpack_single(decl_list, &declaration));
             REQUIRE_CHAIN(&res, kefir_ast_type_function_parameter(
-                                    mem, context->type_bundle, func_type, declaration->base.properties.type,
+                                    mem, context->type_bundle, func_type,
+                                    declaration->declarator->klass == KEFIR_AST_DECLARATOR_ARRAY
+                                        ? declaration->base.properties.type
+                                        : kefir_ast_unqualified_type(declaration->base.properties.type),
                                     &declaration->base.properties.declaration_props.storage));
         } else if (res == KEFIR_NO_MATCH) {
             struct kefir_ast_identifier *identifier = NULL;
-- 
2.43.0


From 95d739dc4cfc28109fec1750fb7dbcf1da569a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 67/89] fix: clone the message of a static assertion
 (assertions inside structures)

---
 source/ast/nodes/static_assertion.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast/nodes/static_assertion.c b/source/ast/nodes/static_assertion.c
index 621704a..4084e06 100644
--- a/source/ast/nodes/static_assertion.c
+++ b/source/ast/nodes/static_assertion.c
@@ -62,6 +62,14 @@ struct kefir_ast_node_base *ast_static_assertion_clone(struct kefir_mem *mem, st
         KEFIR_FREE(mem, clone);
         return NULL;
     });
+
+    struct kefir_ast_node_base *string_clone = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(node->string));
+    REQUIRE_ELSE(string_clone != NULL, {
+        KEFIR_AST_NODE_FREE(mem, clone->condition);
+        KEFIR_FREE(mem, clone);
+        return NULL;
+    });
+    clone->string = string_clone->self;
     return KEFIR_AST_NODE_BASE(clone);
 }
 
-- 
2.43.0


From b067c956e4a614c4ebdcd6882ef78e81b6349edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 68/89] fix: accept only [*] as the unspecified array length

---
 source/parser/rules/declarator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index 20a4381..c9f5e97 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -150,7 +150,7 @@ static kefir_result_t scan_array_impl(struct kefir_mem *mem, struct kefir_parser
     }
 
     kefir_result_t res = KEFIR_OK;
-    if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_STAR)) {
+    if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_STAR) && PARSER_TOKEN_IS_RIGHT_BRACKET(parser, 1)) {
         REQUIRE(!static_array,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                        "Static specifier combination with star in array declaration is forbidden"));
-- 
2.43.0


From 0477a6eb303c57411342038512f0821421a3b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 69/89] fix: reject typedefs with an initializer

---
 source/ast/analyzer/nodes/init_declarator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/ast/analyzer/nodes/init_declarator.c b/source/ast/analyzer/nodes/init_declarator.c
index 94f22e3..2c019c2 100644
--- a/source/ast/analyzer/nodes/init_declarator.c
+++ b/source/ast/analyzer/nodes/init_declarator.c
@@ -25,6 +25,7 @@
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include "kefir/core/source_error.h"
 
 kefir_result_t kefir_ast_analyze_init_declarator_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                       const struct kefir_ast_init_declarator *node,
@@ -54,6 +55,10 @@ kefir_result_t kefir_ast_analyze_init_declarator_node(struct kefir_mem *mem, con
     base->properties.declaration_props.identifier = identifier;
     REQUIRE_OK(kefir_ast_analyze_type(mem, context, context->type_analysis_context, type, &node->base.source_location));
 
+    REQUIRE(storage != KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_TYPEDEF || node->initializer == NULL,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->base.source_location,
+                                   "Type definition cannot have an initializer"));
+
     if (base->properties.declaration_props.identifier != NULL) {
         struct kefir_ast_alignment *alignment = NULL;
         if (base->properties.declaration_props.alignment != 0) {
-- 
2.43.0


From cf004a77414aa55b8967251a93055186fb7c38dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 70/89] fix: reject relational comparison of function pointers

---
 source/ast/analyzer/nodes/binary_operation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 14239bd..6646a8a 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -153,7 +153,8 @@ static kefir_result_t analyze_relational(const struct kefir_ast_context *context
     if (type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER && type2->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         const struct kefir_ast_type *obj_type1 = kefir_ast_unqualified_type(type1->referenced_type);
         const struct kefir_ast_type *obj_type2 = kefir_ast_unqualified_type(type2->referenced_type);
-        REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, obj_type1, obj_type2),
+        REQUIRE(obj_type1->tag != KEFIR_AST_TYPE_FUNCTION &&
+                    KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, obj_type1, obj_type2),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location1,
                                        "Both relational operator operands shall have compatible types"));
     } else {
-- 
2.43.0


From aff80df69dcdef8133c0d081046cf3e1fce448ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 71/89] fix: constrain the types of generic associations

---
 source/ast/analyzer/nodes/generic_selection.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/ast/analyzer/nodes/generic_selection.c b/source/ast/analyzer/nodes/generic_selection.c
index f043c43..fa3b957 100644
--- a/source/ast/analyzer/nodes/generic_selection.c
+++ b/source/ast/analyzer/nodes/generic_selection.c
@@ -43,6 +43,13 @@ kefir_result_t kefir_ast_analyze_generic_selection_node(struct kefir_mem *mem, c
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
         REQUIRE_OK(kefir_ast_analyze_node(mem, context, KEFIR_AST_NODE_BASE(assoc->type_name)));
+        const struct kefir_ast_type *assoc_type =
+            kefir_ast_unqualified_type(assoc->type_name->base.properties.type);
+        REQUIRE(assoc_type->tag != KEFIR_AST_TYPE_FUNCTION &&
+                    (assoc_type->tag == KEFIR_AST_TYPE_VOID || !KEFIR_AST_TYPE_IS_INCOMPLETE(assoc_type)) &&
+                    !kefir_ast_type_is_variably_modified(assoc_type),
+                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &assoc->type_name->base.source_location,
+                                       "Generic association shall name a complete non-variably modified object type"));
         REQUIRE_OK(kefir_ast_analyze_node(mem, context, assoc->expr));
         if (!matched &&
             KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, control_type, assoc->type_name->base.properties.type)) {
-- 
2.43.0


From c24919532c99e74a3525dad3950654e29b0c4b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 72/89] fix: members of an rvalue structure are no lvalues

---
 source/ast/analyzer/nodes/struct_member.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/nodes/struct_member.c b/source/ast/analyzer/nodes/struct_member.c
index e929665..e98d1be 100644
--- a/source/ast/analyzer/nodes/struct_member.c
+++ b/source/ast/analyzer/nodes/struct_member.c
@@ -80,8 +80,11 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = type;
-    base->properties.expression_props.lvalue = true;
-    base->properties.expression_props.addressable = !field->bitfield;
+    base->properties.expression_props.lvalue = base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER ||
+                                               node->structure->properties.expression_props.lvalue;
+    base->properties.expression_props.addressable =
+        !field->bitfield && (base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER ||
+                             node->structure->properties.expression_props.addressable);
     base->properties.expression_props.bitfield_props.bitfield = field->bitfield;
     if (field->bitfield) {
         base->properties.expression_props.bitfield_props.width = field->bitwidth->value.integer;
-- 
2.43.0


From d9b5ea42fd21d10283f3f684a3b893ab8e8b9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 73/89] fix: reject assignment to structures with const members

---
 .../ast/analyzer/nodes/assignment_operator.c  | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index e593de6..c72e5f7 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -25,6 +25,29 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+static kefir_bool_t has_constant_members(const struct kefir_ast_type *type) {
+    type = kefir_ast_unqualified_type(type);
+    while (type->tag == KEFIR_AST_TYPE_ARRAY) {
+        if (type->array_type.element_type->tag == KEFIR_AST_TYPE_QUALIFIED &&
+            type->array_type.element_type->qualified_type.qualification.constant) {
+            return true;
+        }
+        type = kefir_ast_unqualified_type(type->array_type.element_type);
+    }
+    REQUIRE((type->tag == KEFIR_AST_TYPE_STRUCTURE || type->tag == KEFIR_AST_TYPE_UNION) &&
+                type->structure_type.complete,
+            false);
+    for (const struct kefir_list_entry *iter = kefir_list_head(&type->structure_type.fields); iter != NULL;
+         kefir_list_next(&iter)) {
+        ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field, iter->value);
+        if ((field->type->tag == KEFIR_AST_TYPE_QUALIFIED && field->type->qualified_type.qualification.constant) ||
+            has_constant_members(field->type)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static kefir_result_t validate_simple_assignment(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                  const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
@@ -122,7 +145,7 @@ kefir_result_t kefir_ast_analyze_assignment_operator_node(struct kefir_mem *mem,
                                    "Expected non-const lvalue as assignment target operand"));
     struct kefir_ast_type_qualification target_qualifications;
     REQUIRE_OK(kefir_ast_type_retrieve_qualifications(&target_qualifications, node->target->properties.type));
-    REQUIRE(!target_qualifications.constant,
+    REQUIRE(!target_qualifications.constant && !has_constant_members(node->target->properties.type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                    "Expected non-const lvalue as assignment target operand"));
 
-- 
2.43.0


From 969ef4965332775b4eb880d6cd45525fd4b45b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 74/89] fix: reject duplicate members through anonymous
 structures

---
 source/ast/type/struct.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/ast/type/struct.c b/source/ast/type/struct.c
index 27f171b..5798b14 100644
--- a/source/ast/type/struct.c
+++ b/source/ast/type/struct.c
@@ -368,6 +368,24 @@ static kefir_result_t struct_field_free(struct kefir_mem *mem, struct kefir_list
     return KEFIR_OK;
 }
 
+static kefir_result_t check_field_uniqueness(const struct kefir_ast_struct_type *struct_type, const char *identifier,
+                                             const struct kefir_ast_type *type) {
+    if (identifier != NULL) {
+        const struct kefir_ast_struct_field *field = NULL;
+        kefir_result_t res = kefir_ast_struct_type_resolve_field(struct_type, identifier, &field);
+        REQUIRE(res != KEFIR_OK, KEFIR_SET_ERROR(KEFIR_INVALID_CHANGE, "Duplicate structure field identifier"));
+        REQUIRE(res == KEFIR_NOT_FOUND, res);
+        kefir_clear_error();
+    } else if (type->tag == KEFIR_AST_TYPE_STRUCTURE || type->tag == KEFIR_AST_TYPE_UNION) {
+        for (const struct kefir_list_entry *iter = kefir_list_head(&type->structure_type.fields);
+             type->structure_type.complete && iter != NULL; kefir_list_next(&iter)) {
+            ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field, iter->value);
+            REQUIRE_OK(check_field_uniqueness(struct_type, field->identifier, field->type));
+        }
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t kefir_ast_struct_type_field_impl(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
                                                        struct kefir_ast_struct_type *struct_type,
                                                        const char *identifier, const struct kefir_ast_type *type,
@@ -381,6 +399,7 @@ static kefir_result_t kefir_ast_struct_type_field_impl(struct kefir_mem *mem, st
     if (identifier != NULL && kefir_hashtree_has(&struct_type->field_index, (kefir_hashtree_key_t) identifier)) {
         return KEFIR_SET_ERROR(KEFIR_INVALID_CHANGE, "Duplicate structure field identifier");
     }
+    REQUIRE_OK(check_field_uniqueness(struct_type, identifier, type));
     struct kefir_ast_struct_field *field = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_field));
     REQUIRE(field != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate memory for aggregate field"));
     if (symbols != NULL && identifier != NULL) {
-- 
2.43.0


From fe84c6e5fcd76e9d01e2283df89d3e93691496b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 75/89] fix: array lengths of qualified type, negative lengths,
 alignments, structure tags inside their own definition

---
 source/ast/analyzer/declarator.c | 19 ++++++++++++++++++-
 source/ast/analyzer/type.c       |  3 ++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index adb9310..ee101ee 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -181,6 +181,16 @@ static kefir_result_t resolve_struct_type(struct kefir_mem *mem, const struct ke
                    : kefir_ast_type_union(mem, context->type_bundle, specifier->identifier, &struct_type);
         REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Unable to allocate AST struct/union type"));
 
+        if (specifier->identifier != NULL) {
+            const struct kefir_ast_type *incomplete_type =
+                decl_specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT
+                    ? kefir_ast_type_incomplete_structure(mem, context->type_bundle, specifier->identifier)
+                    : kefir_ast_type_incomplete_union(mem, context->type_bundle, specifier->identifier);
+            REQUIRE(incomplete_type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Unable to allocate AST struct/union type"));
+            REQUIRE_OK(context->define_tag(mem, context, incomplete_type, &decl_specifier->source_location));
+        }
+
         for (const struct kefir_list_entry *iter = kefir_list_head(&specifier->entries); iter != NULL;
              kefir_list_next(&iter)) {
             ASSIGN_DECL_CAST(struct kefir_ast_structure_declaration_entry *, entry, iter->value);
@@ -746,6 +756,9 @@ static kefir_result_t evaluate_alignment(struct kefir_mem *mem, const struct kef
         REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->source_location,
                                        "Expected alignment specifier to produce integral constant expression"));
+        REQUIRE(value.integer >= 0 && (value.integer & (value.integer - 1)) == 0,
+                KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->source_location,
+                                       "Expected alignment to be zero or a power of two"));
         *alignment = MAX(*alignment, (kefir_size_t) value.integer);
     }
     return KEFIR_OK;
@@ -807,7 +820,8 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                 kefir_ast_constant_expression_value_evaluate(mem, context, declarator->array.length, &value);
             if (res == KEFIR_NOT_CONSTANT || (res == KEFIR_OK && KEFIR_AST_TYPE_IS_VL_ARRAY(*base_type))) {
                 kefir_clear_error();
-                REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(declarator->array.length->properties.type),
+                REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(
+                            kefir_ast_unqualified_type(declarator->array.length->properties.type)),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
                                                "Variable-length array declaration length shall have integral type"));
                 if (declarator->array.static_array) {
@@ -824,6 +838,9 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                 REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
                                                "Constant length of AST array declaration shall have integral type"));
+                REQUIRE(value.integer >= 0,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &declarator->array.length->source_location,
+                                               "Constant length of AST array declaration shall not be negative"));
                 if (declarator->array.static_array) {
                     *base_type = kefir_ast_type_array_static(mem, context->type_bundle, *base_type,
                                                              kefir_ast_constant_expression_integer(mem, value.integer),
diff --git a/source/ast/analyzer/type.c b/source/ast/analyzer/type.c
index 6de1226..2727b1c 100644
--- a/source/ast/analyzer/type.c
+++ b/source/ast/analyzer/type.c
@@ -86,7 +86,8 @@ static kefir_result_t analyze_array(struct kefir_mem *mem, const struct kefir_as
         case KEFIR_AST_ARRAY_VLA_STATIC:
             if (array_type->vla_length != NULL) {
                 REQUIRE_OK(kefir_ast_analyze_node(mem, context, array_type->vla_length));
-                REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(array_type->vla_length->properties.type),
+                REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(
+                            kefir_ast_unqualified_type(array_type->vla_length->properties.type)),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                                "Array type subscript shall have integral type"));
             }
-- 
2.43.0


From 794ff716ecfec84dc2aaabf3bba1db65258eb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:46 +0000
Subject: [PATCH 76/89] fix: report failed allocations of hash tree roots,
 blocks, tree nodes and vectors without losing memory; append in
 kefir_vector_copy; reset freed lists

---
 source/core/block_tree.c |  2 ++
 source/core/hashtree.c   |  1 +
 source/core/list.c       |  2 ++
 source/core/tree.c       |  7 ++++++-
 source/core/vector.c     | 14 +++++---------
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/source/core/block_tree.c b/source/core/block_tree.c
index 93f46ef..7eb01cf 100644
--- a/source/core/block_tree.c
+++ b/source/core/block_tree.c
@@ -106,7 +106,9 @@ kefir_result_t kefir_block_tree_block(struct kefir_mem *mem, struct kefir_block_
 
     kefir_result_t res = kefir_block_tree_get_block(tree, block_id, block_ptr);
     if (res == KEFIR_NOT_FOUND) {
+        kefir_clear_error();
         void *block = KEFIR_MALLOC(mem, tree->block_size);
+        REQUIRE(block != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate tree block"));
 
         if (tree->on_block_init.callback != NULL) {
             res = tree->on_block_init.callback(mem, tree, block_id, block, tree->on_block_init.payload);
diff --git a/source/core/hashtree.c b/source/core/hashtree.c
index 67512ea..af2f983 100644
--- a/source/core/hashtree.c
+++ b/source/core/hashtree.c
@@ -143,6 +143,7 @@ kefir_result_t kefir_hashtree_insert(struct kefir_mem *mem, struct kefir_hashtre
     kefir_hashtree_hash_t hash = tree->ops->hash(key, tree->ops->data);
     if (tree->root == NULL) {
         tree->root = node_alloc(mem, hash, NULL, key, value);
+        REQUIRE(tree->root != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate hash tree node"));
         return KEFIR_OK;
     } else {
         return node_insert(mem, tree, tree->root, hash, key, value, NULL, false);
diff --git a/source/core/list.c b/source/core/list.c
index bbfda47..6e0c5fe 100644
--- a/source/core/list.c
+++ b/source/core/list.c
@@ -46,6 +46,8 @@ kefir_result_t kefir_list_free(struct kefir_mem *mem, struct kefir_list *list) {
         current = next;
     }
     list->head = NULL;
+    list->tail = NULL;
+    list->length = 0;
     return KEFIR_OK;
 }
 
diff --git a/source/core/tree.c b/source/core/tree.c
index a00bf79..2738746 100644
--- a/source/core/tree.c
+++ b/source/core/tree.c
@@ -86,7 +86,12 @@ kefir_result_t kefir_tree_insert_child(struct kefir_mem *mem, struct kefir_tree_
         return res;
     });
     struct kefir_list_entry *last_child = kefir_list_tail(&node->children);
-    REQUIRE_OK(kefir_list_insert_after(mem, &node->children, last_child, child));
+    res = kefir_list_insert_after(mem, &node->children, last_child, child);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(mem, &child->children);
+        KEFIR_FREE(mem, child);
+        return res;
+    });
     child->prev_sibling = last_child != NULL ? (struct kefir_tree_node *) last_child->value : NULL;
     child->next_sibling = NULL;
     if (child->prev_sibling != NULL) {
diff --git a/source/core/vector.c b/source/core/vector.c
index 099395a..6a9aa18 100644
--- a/source/core/vector.c
+++ b/source/core/vector.c
@@ -73,7 +73,7 @@ kefir_result_t kefir_vector_copy(struct kefir_vector *vector, void *src, kefir_s
     REQUIRE(kefir_vector_available(vector) >= length,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Unable to copy given number of elements"));
     if (src != NULL) {
-        memcpy(vector->content, src, vector->element_size * length);
+        memcpy((char *) vector->content + vector->length * vector->element_size, src, vector->element_size * length);
     }
     vector->length += length;
     return KEFIR_OK;
@@ -108,17 +108,13 @@ kefir_result_t kefir_vector_alloc(struct kefir_mem *mem, kefir_size_t element_si
 kefir_result_t kefir_vector_realloc(struct kefir_mem *mem, kefir_size_t new_capacity, struct kefir_vector *vector) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(vector != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected non-NULL vector pointer"));
-    REQUIRE((vector->content != NULL && vector->length > 0) || (vector->content == NULL && vector->length == 0),
+    REQUIRE((vector->content != NULL && vector->capacity > 0) || (vector->content == NULL && vector->capacity == 0),
             KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Expected valid vector content pointer"));
     REQUIRE(vector->length <= new_capacity,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Expected new capacity to fit current vector length"));
-    vector->content = KEFIR_REALLOC(mem, vector->content, vector->element_size * new_capacity);
-    if (vector->content == NULL) {
-        vector->length = 0;
-        vector->capacity = 0;
-        vector->element_size = 0;
-        return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate vector");
-    }
+    void *new_content = KEFIR_REALLOC(mem, vector->content, vector->element_size * new_capacity);
+    REQUIRE(new_content != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to reallocate vector"));
+    vector->content = new_content;
     vector->capacity = new_capacity;
     return KEFIR_OK;
 }
-- 
2.43.0


From c2c9b2d00753231e7a078985d049b0fa6447f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:24 +0000
Subject: [PATCH 77/89] fix: check the results of allocations and do not
 release objects twice when an allocation fails

---
 source/ast-translator/function_translator.c     |  1 +
 source/ast-translator/initializer.c             |  1 +
 source/ast-translator/lvalue.c                  |  9 +++++----
 .../ast-translator/nodes/assignment_operator.c  | 13 +++++++------
 source/ast-translator/nodes/binary_operation.c  | 13 +++++++++----
 source/ast-translator/nodes/builtin.c           |  1 +
 source/ast-translator/nodes/cast_operator.c     |  1 +
 .../ast-translator/nodes/conditional_operator.c |  7 ++++---
 .../nodes/conditional_statement.c               |  1 +
 source/ast-translator/nodes/for_statement.c     |  7 +++----
 source/ast-translator/nodes/generic_selection.c |  1 +
 source/ast-translator/nodes/while_statement.c   |  1 +
 .../ast-translator/scope/local_scope_layout.c   |  4 ++++
 source/ast-translator/type.c                    |  1 +
 source/ast-translator/unit_translator.c         |  2 +-
 source/ast-translator/value.c                   |  1 +
 source/ast/analyzer/assignable.c                |  1 +
 source/ast/analyzer/declarator.c                |  8 +++++++-
 source/ast/analyzer/initializer.c               |  1 +
 source/ast/analyzer/nodes/array_subscript.c     |  2 ++
 source/ast/analyzer/nodes/assignment_operator.c | 13 ++++++++-----
 source/ast/analyzer/nodes/binary_operation.c    |  2 ++
 source/ast/analyzer/nodes/builtin.c             |  6 ++++++
 source/ast/analyzer/nodes/cast_operator.c       |  1 +
 source/ast/analyzer/nodes/comma_operator.c      |  1 +
 .../ast/analyzer/nodes/conditional_operator.c   | 11 +++++++++++
 .../ast/analyzer/nodes/conditional_statement.c  |  1 +
 source/ast/analyzer/nodes/do_while_statement.c  |  1 +
 source/ast/analyzer/nodes/for_statement.c       |  5 +++--
 source/ast/analyzer/nodes/function_call.c       |  1 +
 source/ast/analyzer/nodes/function_definition.c |  1 +
 source/ast/analyzer/nodes/generic_selection.c   |  4 ++--
 source/ast/analyzer/nodes/goto_statement.c      |  1 +
 source/ast/analyzer/nodes/init_declarator.c     |  7 +------
 source/ast/analyzer/nodes/label_address.c       |  1 +
 source/ast/analyzer/nodes/return_statement.c    |  1 +
 .../ast/analyzer/nodes/statement_expression.c   |  1 +
 source/ast/analyzer/nodes/string_literal.c      |  1 +
 source/ast/analyzer/nodes/struct_member.c       |  6 ++++--
 source/ast/analyzer/nodes/switch_statement.c    |  2 ++
 source/ast/analyzer/nodes/unary_operation.c     |  9 +++++++--
 source/ast/analyzer/nodes/while_statement.c     |  1 +
 .../ast/constant_expression/generic_selection.c |  1 +
 .../lvalue_constant_reference.c                 |  1 +
 source/ast/context_impl.c                       |  6 ++++++
 source/ast/declarator_specifier.c               | 17 +++++++++++++++--
 source/ast/function_declaration_context.c       |  1 +
 source/ast/global_context.c                     | 16 ++++++++++++++++
 source/ast/local_context.c                      |  8 ++++++--
 source/ast/nodes/declaration.c                  |  2 +-
 source/ast/nodes/generic_selection.c            | 10 ++++++----
 source/ast/nodes/struct_member.c                |  2 ++
 source/ast/type_conv.c                          |  9 +++++++--
 source/codegen/amd64/system-v/abi/function.c    |  2 ++
 source/ir/module.c                              |  9 ++++++---
 source/ir/type_tree.c                           |  2 --
 source/parser/builder.c                         |  7 +++++--
 source/parser/rules/declaration_specifier.c     |  4 +++-
 source/parser/rules/declarator.c                |  1 +
 source/parser/rules/initializer_list.c          |  2 +-
 60 files changed, 191 insertions(+), 62 deletions(-)

diff --git a/source/ast-translator/function_translator.c b/source/ast-translator/function_translator.c
index 6b33bc4..2fd687d 100644
--- a/source/ast-translator/function_translator.c
+++ b/source/ast-translator/function_translator.c
@@ -325,6 +325,7 @@ kefir_result_t kefir_ast_translator_function_context_translate(
             const struct kefir_ast_type *default_promotion =
                 kefir_ast_type_function_default_argument_convertion_promotion(
                     mem, context->ast_context->type_bundle, context->ast_context->type_traits, scoped_id->object.type);
+            REQUIRE(default_promotion != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(default_promotion)) {
                 REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, default_promotion,
                                                         scoped_id->object.type));
diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index dfe7265..bd0801b 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -162,6 +162,7 @@ static kefir_result_t traverse_string_literal(const struct kefir_ast_designator
     const struct kefir_ast_type *array_type = kefir_ast_type_array(
         param->mem, param->context->ast_context->type_bundle, type_layout->type->array_type.element_type,
         kefir_ast_constant_expression_integer(param->mem, length), NULL);
+    REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_translate_expression(param->mem, expression, param->builder, param->context));
 
     REQUIRE_OK(kefir_ast_translator_store_value(
diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 3b7c66f..00dc853 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -157,6 +157,7 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
     kefir_result_t res = KEFIR_OK;
     const struct kefir_ast_type *array_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->array->properties.type);
+    REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (array_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->subscript, builder, context));
@@ -164,8 +165,8 @@ kefir_result_t kefir_ast_translate_array_subscript_lvalue(struct kefir_mem *mem,
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->subscript, builder, context));
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->array, builder, context));
     }
-    REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, node->base.properties.type,
-                                                            translator_type));
+    REQUIRE_CHAIN(
+        &res, kefir_ast_translate_element_pointer(mem, context, builder, node->base.properties.type, translator_type));
 
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_translator_type_free(mem, translator_type);
@@ -186,6 +187,7 @@ kefir_result_t kefir_ast_translate_struct_member_lvalue(struct kefir_mem *mem,
 
     const struct kefir_ast_type *structure_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->structure->properties.type);
+    REQUIRE(structure_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (structure_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         structure_type = kefir_ast_unqualified_type(structure_type->referenced_type);
     }
@@ -331,8 +333,7 @@ static kefir_result_t translate_string_literal_node(const struct kefir_ast_visit
     REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
     ASSIGN_DECL_CAST(struct kefir_ast_translator_parameters *, param, payload);
 
-    REQUIRE_OK(
-        kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
+    REQUIRE_OK(kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
     return KEFIR_OK;
 }
 
diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 514a910..4236069 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -124,8 +124,7 @@ static kefir_result_t convert_result(struct kefir_ast_translator_context *contex
             REQUIRE_OK(kefir_ast_translate_typeconv_normalize(builder, context->ast_context->type_traits, common_type));
         }
     }
-    REQUIRE_OK(
-        kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_type));
+    REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_type));
     return KEFIR_OK;
 }
 
@@ -337,6 +336,7 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                                     const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->target->properties.type);
+    REQUIRE(target_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_init_normalized_type =
         kefir_ast_translator_normalize_type(node->value->properties.type);
     const struct kefir_ast_type *value_normalized_type =
@@ -407,8 +407,8 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
         REQUIRE_CHAIN(&res, kefir_ast_translator_resolve_lvalue(mem, context, builder, node->target));
 
         REQUIRE_CHAIN(&res, reorder_assignment_arguments(builder, NULL));
-        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
-                                                            translator_type));
+        REQUIRE_CHAIN(&res,
+                      kefir_ast_translate_element_pointer(mem, context, builder, referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -426,6 +426,7 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                                          const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->target->properties.type);
+    REQUIRE(target_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_init_normalized_type =
         kefir_ast_translator_normalize_type(node->value->properties.type);
     const struct kefir_ast_type *value_normalized_type =
@@ -497,8 +498,8 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
         REQUIRE_CHAIN(&res, kefir_ast_translator_resolve_lvalue(mem, context, builder, node->target));
 
         REQUIRE_CHAIN(&res, reorder_assignment_arguments(builder, NULL));
-        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
-                                                            translator_type));
+        REQUIRE_CHAIN(&res,
+                      kefir_ast_translate_element_pointer(mem, context, builder, referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
diff --git a/source/ast-translator/nodes/binary_operation.c b/source/ast-translator/nodes/binary_operation.c
index 9ddcf1b..ba89eb4 100644
--- a/source/ast-translator/nodes/binary_operation.c
+++ b/source/ast-translator/nodes/binary_operation.c
@@ -71,8 +71,10 @@ static kefir_result_t translate_addition(struct kefir_mem *mem, struct kefir_ast
                                          const struct kefir_ast_binary_operation *node) {
     const struct kefir_ast_type *arg1_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg1->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg2->properties.type);
+    REQUIRE(arg2_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -117,8 +119,8 @@ static kefir_result_t translate_addition(struct kefir_mem *mem, struct kefir_ast
             REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->arg2, builder, context));
             REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->arg1, builder, context));
         }
-        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
-                                                            translator_type));
+        REQUIRE_CHAIN(&res,
+                      kefir_ast_translate_element_pointer(mem, context, builder, referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -134,8 +136,10 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
                                             const struct kefir_ast_binary_operation *node) {
     const struct kefir_ast_type *arg1_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg1->properties.type);
+    REQUIRE(arg1_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *arg2_normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->arg2->properties.type);
+    REQUIRE(arg2_normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -185,8 +189,8 @@ static kefir_result_t translate_subtraction(struct kefir_mem *mem, struct kefir_
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_INEG, 0));
-        REQUIRE_CHAIN(&res, kefir_ast_translate_element_pointer(mem, context, builder, referenced_type,
-                                                            translator_type));
+        REQUIRE_CHAIN(&res,
+                      kefir_ast_translate_element_pointer(mem, context, builder, referenced_type, translator_type));
 
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_translator_type_free(mem, translator_type);
@@ -567,6 +571,7 @@ static kefir_result_t truncate_value(struct kefir_mem *mem, struct kefir_ast_tra
                                      struct kefir_irbuilder_block *builder, const struct kefir_ast_type *type) {
     const struct kefir_ast_type *normalized_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, type);
+    REQUIRE(normalized_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(normalized_type)) {
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
     } else {
diff --git a/source/ast-translator/nodes/builtin.c b/source/ast-translator/nodes/builtin.c
index 8b34fdd..f277cef 100644
--- a/source/ast-translator/nodes/builtin.c
+++ b/source/ast-translator/nodes/builtin.c
@@ -71,6 +71,7 @@ kefir_result_t kefir_ast_translate_builtin_node(struct kefir_mem *mem, struct ke
             struct kefir_ast_type_layout *type_layout;
 
             struct kefir_ir_type *va_type = kefir_ir_module_new_type(mem, context->module, 0, &va_type_id);
+            REQUIRE(va_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate IR type"));
             REQUIRE_OK(kefir_irbuilder_type_init(mem, &type_builder, va_type));
             kefir_result_t res = kefir_ast_translate_object_type(mem, type_arg->properties.type, 0,
                                                                  context->environment, &type_builder, &type_layout);
diff --git a/source/ast-translator/nodes/cast_operator.c b/source/ast-translator/nodes/cast_operator.c
index fea9698..0aedff8 100644
--- a/source/ast-translator/nodes/cast_operator.c
+++ b/source/ast-translator/nodes/cast_operator.c
@@ -37,6 +37,7 @@ kefir_result_t kefir_ast_translate_cast_operator_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->expr->properties.type);
+    REQUIRE(expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     const struct kefir_ast_type *arg_init_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index d804ac4..7adaae0 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -33,9 +33,9 @@ static kefir_result_t convert_operand(struct kefir_mem *mem, struct kefir_ast_tr
     const struct kefir_ast_type *result_type = kefir_ast_translator_normalize_type(node->base.properties.type);
     const struct kefir_ast_type *operand_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, operand->properties.type);
+    REQUIRE(operand_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(result_type)) {
-        REQUIRE_OK(
-            kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, operand_type, result_type));
+        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, operand_type, result_type));
     }
     return KEFIR_OK;
 }
@@ -53,7 +53,8 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
         const struct kefir_ast_type *condition_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->condition->properties.type);
-        REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
+        REQUIRE(condition_type != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
         if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
             REQUIRE_OK(kefir_ast_translate_truth_value(builder, condition_type));
         }
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index 9810c8c..6b0388e 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -39,6 +39,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_translate_truth_value(builder, condition_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index cc7f790..b7048b2 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -63,8 +63,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
 
     const struct kefir_ast_flow_control_structure_data_element_range init_vlas =
         flow_control_stmt->value.loop.continuation->parent_data_elts;
-    const kefir_bool_t release_init_vlas =
-        init_vlas.tail != flow_control_stmt->value.loop.end->parent_data_elts.tail;
+    const kefir_bool_t release_init_vlas = init_vlas.tail != flow_control_stmt->value.loop.end->parent_data_elts.tail;
     kefir_size_t exit_branch = 0;
 
     kefir_size_t begin = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
@@ -73,6 +72,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
+        REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE_OK(kefir_ast_translate_truth_value(builder, controlling_expr_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
@@ -107,8 +107,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         if (node->controlling_expr != NULL) {
             kefir_irblock_at(builder->block, exit_branch)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         }
-        REQUIRE_OK(
-            kefir_ast_translate_vla_range_release(mem, context, builder, init_vlas.head, init_vlas.tail));
+        REQUIRE_OK(kefir_ast_translate_vla_range_release(mem, context, builder, init_vlas.head, init_vlas.tail));
     }
     REQUIRE_OK(kefir_ast_translator_flow_control_point_resolve(mem, flow_control_stmt->value.loop.end,
                                                                KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder)));
diff --git a/source/ast-translator/nodes/generic_selection.c b/source/ast-translator/nodes/generic_selection.c
index dfa2a5b..9dce045 100644
--- a/source/ast-translator/nodes/generic_selection.c
+++ b/source/ast-translator/nodes/generic_selection.c
@@ -36,6 +36,7 @@ kefir_result_t kefir_ast_translate_generic_selection_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     for (const struct kefir_list_entry *iter = kefir_list_head(&node->associations); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index 5ce9669..851f4f5 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -44,6 +44,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(controlling_expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_translate_truth_value(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
diff --git a/source/ast-translator/scope/local_scope_layout.c b/source/ast-translator/scope/local_scope_layout.c
index 9dcc629..d4a22c6 100644
--- a/source/ast-translator/scope/local_scope_layout.c
+++ b/source/ast-translator/scope/local_scope_layout.c
@@ -312,6 +312,8 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
     const kefir_size_t begin = kefir_ir_type_total_length(builder->type);
     if (!empty_scope) {
         *scope_type_layout = kefir_ast_new_type_layout(mem, NULL, 0, begin);
+        REQUIRE(*scope_type_layout != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type layout"));
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_STRUCT, 0, 0));
     }
     struct kefir_ast_identifier_flat_scope_iterator iter;
@@ -337,6 +339,8 @@ static kefir_result_t traverse_local_scope(struct kefir_mem *mem, const struct k
         const kefir_size_t children_begin = kefir_ir_type_total_length(builder->type);
         struct kefir_ast_type_layout *sublocal_scopes_type_layout =
             kefir_ast_new_type_layout(mem, NULL, 0, children_begin);
+        REQUIRE(sublocal_scopes_type_layout != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type layout"));
         struct kefir_ir_typeentry *typeentry = kefir_ir_type_at(builder->type, begin);
         typeentry->param++;
         REQUIRE_OK(KEFIR_IRBUILDER_TYPE_APPEND_V(builder, KEFIR_IR_TYPE_UNION, 0, 0));
diff --git a/source/ast-translator/type.c b/source/ast-translator/type.c
index 5ee0b38..75cdb2c 100644
--- a/source/ast-translator/type.c
+++ b/source/ast-translator/type.c
@@ -41,6 +41,7 @@ kefir_result_t kefir_ast_translator_type_new(struct kefir_mem *mem, const struct
     tr_type->type = type;
 
     tr_type->object.ir_type = kefir_ir_module_new_type(mem, module, 0, &tr_type->object.ir_type_id);
+    REQUIRE(tr_type->object.ir_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate IR type"));
     struct kefir_irbuilder_type type_builder;
     res = kefir_irbuilder_type_init(mem, &type_builder, tr_type->object.ir_type);
     REQUIRE_ELSE(res == KEFIR_OK, {
diff --git a/source/ast-translator/unit_translator.c b/source/ast-translator/unit_translator.c
index a59895e..7905f06 100644
--- a/source/ast-translator/unit_translator.c
+++ b/source/ast-translator/unit_translator.c
@@ -49,7 +49,7 @@ static kefir_result_t allocate_function_context(struct kefir_mem *mem, struct ke
                      KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected function definition AST node"));
 
     *function_context = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_translator_function_context));
-    REQUIRE(function_context != NULL,
+    REQUIRE(*function_context != NULL,
             KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST translator function context"));
 
     res = kefir_ast_translator_function_context_init(mem, context, function_definition, *function_context);
diff --git a/source/ast-translator/value.c b/source/ast-translator/value.c
index e8139b1..700896e 100644
--- a/source/ast-translator/value.c
+++ b/source/ast-translator/value.c
@@ -70,6 +70,7 @@ static kefir_result_t resolve_bitfield_layout(struct kefir_mem *mem, struct kefi
                                               struct kefir_ast_type_layout **member_layout) {
     const struct kefir_ast_type *structure_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->structure->properties.type);
+    REQUIRE(structure_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (structure_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         structure_type = kefir_ast_unqualified_type(structure_type->referenced_type);
     } else if (KEFIR_AST_TYPE_IS_INCOMPLETE(structure_type)) {
diff --git a/source/ast/analyzer/assignable.c b/source/ast/analyzer/assignable.c
index be381db..ee988d1 100644
--- a/source/ast/analyzer/assignable.c
+++ b/source/ast/analyzer/assignable.c
@@ -88,6 +88,7 @@ kefir_result_t kefir_ast_node_assignable(struct kefir_mem *mem, const struct kef
 
     const struct kefir_ast_type *value_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->properties.type);
+    REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_type_assignable(mem, context, value_type,
                                          node->properties.expression_props.constant_expression, target_type));
     return KEFIR_OK;
diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index ee101ee..3889dac 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -331,7 +331,7 @@ enum type_specifier_sequence_state {
     TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT
 } type_specifier_sequence_state_t;
 
-#define CONTINUE_SPECIFIER_SEQUENCE(_state)                                                             \
+#define CONTINUE_SPECIFIER_SEQUENCE(_state)                                                                   \
     (*(_state) = *(_state) == TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT ? TYPE_SPECIFIER_SEQUENCE_SPECIFIERS_INT \
                                                                      : TYPE_SPECIFIER_SEQUENCE_SPECIFIERS)
 
@@ -502,6 +502,7 @@ static kefir_result_t resolve_type(struct kefir_mem *mem, const struct kefir_ast
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &decl_specifier->source_location,
                                            "va_list type specifier cannot be combined with others"));
             *base_type = kefir_ast_type_va_list();
+            REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             *seq_state = TYPE_SPECIFIER_SEQUENCE_SPECIFIERS;
             break;
 
@@ -828,10 +829,12 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                     *base_type = kefir_ast_type_vlen_array_static(mem, context->type_bundle, *base_type,
                                                                   KEFIR_AST_NODE_CLONE(mem, declarator->array.length),
                                                                   &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 } else {
                     *base_type =
                         kefir_ast_type_vlen_array(mem, context->type_bundle, *base_type,
                                                   KEFIR_AST_NODE_CLONE(mem, declarator->array.length), &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
             } else {
                 REQUIRE_OK(res);
@@ -845,10 +848,12 @@ static kefir_result_t resolve_array_declarator(struct kefir_mem *mem, const stru
                     *base_type = kefir_ast_type_array_static(mem, context->type_bundle, *base_type,
                                                              kefir_ast_constant_expression_integer(mem, value.integer),
                                                              &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 } else {
                     *base_type =
                         kefir_ast_type_array(mem, context->type_bundle, *base_type,
                                              kefir_ast_constant_expression_integer(mem, value.integer), &qualification);
+                    REQUIRE(*base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
             }
         } break;
@@ -1025,6 +1030,7 @@ static kefir_result_t analyze_declaration_specifiers_impl(
                                      kefir_ast_declarator_specifier_list_source_location(specifiers), &base_type));
     if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualification)) {
         base_type = kefir_ast_type_qualified(mem, context->type_bundle, base_type, qualification);
+        REQUIRE(base_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     ASSIGN_PTR(type, base_type);
diff --git a/source/ast/analyzer/initializer.c b/source/ast/analyzer/initializer.c
index f2e8acf..de0281e 100644
--- a/source/ast/analyzer/initializer.c
+++ b/source/ast/analyzer/initializer.c
@@ -273,6 +273,7 @@ static kefir_result_t analyze_array(struct kefir_mem *mem, const struct kefir_as
             properties->type = kefir_ast_type_array(mem, context->type_bundle, type->array_type.element_type,
                                                     kefir_ast_constant_expression_integer(mem, array_length),
                                                     &type->array_type.qualifications);
+            REQUIRE(properties->type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } else {
             properties->type = type;
         }
diff --git a/source/ast/analyzer/nodes/array_subscript.c b/source/ast/analyzer/nodes/array_subscript.c
index f785d13..20c979f 100644
--- a/source/ast/analyzer/nodes/array_subscript.c
+++ b/source/ast/analyzer/nodes/array_subscript.c
@@ -45,8 +45,10 @@ kefir_result_t kefir_ast_analyze_array_subscript_node(struct kefir_mem *mem, con
 
     const struct kefir_ast_type *array_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->array->properties.type);
+    REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *subcript_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->subscript->properties.type);
+    REQUIRE(subcript_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type = NULL;
     if (array_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(subcript_type),
diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index c72e5f7..b0d93e8 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -34,9 +34,9 @@ static kefir_bool_t has_constant_members(const struct kefir_ast_type *type) {
         }
         type = kefir_ast_unqualified_type(type->array_type.element_type);
     }
-    REQUIRE((type->tag == KEFIR_AST_TYPE_STRUCTURE || type->tag == KEFIR_AST_TYPE_UNION) &&
-                type->structure_type.complete,
-            false);
+    REQUIRE(
+        (type->tag == KEFIR_AST_TYPE_STRUCTURE || type->tag == KEFIR_AST_TYPE_UNION) && type->structure_type.complete,
+        false);
     for (const struct kefir_list_entry *iter = kefir_list_head(&type->structure_type.fields); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(const struct kefir_ast_struct_field *, field, iter->value);
@@ -52,6 +52,7 @@ static kefir_result_t validate_simple_assignment(struct kefir_mem *mem, const st
                                                  const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(target_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     kefir_result_t res;
     REQUIRE_MATCH_OK(&res, kefir_ast_node_assignable(mem, context, node->value, target_type),
@@ -65,8 +66,10 @@ static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const
                                                    const struct kefir_ast_assignment_operator *node) {
     const struct kefir_ast_type *target_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(target_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *value_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->value->properties.type);
+    REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     switch (node->operation) {
         case KEFIR_AST_ASSIGNMENT_MULTIPLY:
         case KEFIR_AST_ASSIGNMENT_DIVIDE:
@@ -95,8 +98,7 @@ static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const
         case KEFIR_AST_ASSIGNMENT_ADD:
         case KEFIR_AST_ASSIGNMENT_SUBTRACT:
             if (target_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
-                const struct kefir_ast_type *referenced_type =
-                    kefir_ast_unqualified_type(target_type->referenced_type);
+                const struct kefir_ast_type *referenced_type = kefir_ast_unqualified_type(target_type->referenced_type);
                 REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(referenced_type) ||
                             (context->configuration->analysis.ext_pointer_arithmetics &&
                              referenced_type->tag == KEFIR_AST_TYPE_VOID),
@@ -163,5 +165,6 @@ kefir_result_t kefir_ast_analyze_assignment_operator_node(struct kefir_mem *mem,
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 6646a8a..e20cea3 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -245,8 +245,10 @@ kefir_result_t kefir_ast_analyze_binary_operation_node(struct kefir_mem *mem, co
 
     const struct kefir_ast_type *type1 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg1->properties.type);
+    REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type2 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg2->properties.type);
+    REQUIRE(type2 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.expression_props.constant_expression =
diff --git a/source/ast/analyzer/nodes/builtin.c b/source/ast/analyzer/nodes/builtin.c
index aabad3a..17cf177 100644
--- a/source/ast/analyzer/nodes/builtin.c
+++ b/source/ast/analyzer/nodes/builtin.c
@@ -121,6 +121,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &size->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_BUILTIN_ALLOCA_WITH_ALIGN: {
@@ -140,6 +142,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &alignment->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_BUILTIN_ALLOCA_WITH_ALIGN_AND_MAX: {
@@ -160,6 +164,8 @@ kefir_result_t kefir_ast_analyze_builtin_node(struct kefir_mem *mem, const struc
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &alignment->source_location,
                                            "Expected an integral expression"));
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
     }
     return KEFIR_OK;
diff --git a/source/ast/analyzer/nodes/cast_operator.c b/source/ast/analyzer/nodes/cast_operator.c
index e713dac..ef7945a 100644
--- a/source/ast/analyzer/nodes/cast_operator.c
+++ b/source/ast/analyzer/nodes/cast_operator.c
@@ -42,6 +42,7 @@ kefir_result_t kefir_ast_analyze_cast_operator_node(struct kefir_mem *mem, const
 
     const struct kefir_ast_type *expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, cast->expr->properties.type);
+    REQUIRE(expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *cast_type = kefir_ast_unqualified_type(cast->type_name->base.properties.type);
     REQUIRE((KEFIR_AST_TYPE_IS_SCALAR_TYPE(expr_type) && KEFIR_AST_TYPE_IS_SCALAR_TYPE(cast_type)) ||
                 cast->type_name->base.properties.type->tag == KEFIR_AST_TYPE_VOID,
diff --git a/source/ast/analyzer/nodes/comma_operator.c b/source/ast/analyzer/nodes/comma_operator.c
index 53cd551..6d17923 100644
--- a/source/ast/analyzer/nodes/comma_operator.c
+++ b/source/ast/analyzer/nodes/comma_operator.c
@@ -49,6 +49,7 @@ kefir_result_t kefir_ast_analyze_comma_operator_node(struct kefir_mem *mem, cons
                                        "All comma operands shall be expressions"));
 
         base->properties.type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr->properties.type);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     return KEFIR_OK;
diff --git a/source/ast/analyzer/nodes/conditional_operator.c b/source/ast/analyzer/nodes/conditional_operator.c
index 2f7943b..b55cc8c 100644
--- a/source/ast/analyzer/nodes/conditional_operator.c
+++ b/source/ast/analyzer/nodes/conditional_operator.c
@@ -57,10 +57,13 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
 
     const struct kefir_ast_type *cond_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->condition->properties.type);
+    REQUIRE(cond_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type1 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, left_expr->properties.type);
+    REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     const struct kefir_ast_type *type2 =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expr2->properties.type);
+    REQUIRE(type2 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
@@ -113,8 +116,12 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
                 if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&total_qualifications)) {
                     result_type =
                         kefir_ast_type_qualified(mem, context->type_bundle, result_type, total_qualifications);
+                    REQUIRE(result_type != NULL,
+                            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
                 base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, result_type);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             } else {
                 REQUIRE(KEFIR_AST_TYPE_COMPATIBLE(context->type_traits, unqualified1, unqualified2),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &left_expr->source_location,
@@ -124,8 +131,12 @@ kefir_result_t kefir_ast_analyze_conditional_operator_node(struct kefir_mem *mem
                 if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&total_qualifications)) {
                     result_type =
                         kefir_ast_type_qualified(mem, context->type_bundle, result_type, total_qualifications);
+                    REQUIRE(result_type != NULL,
+                            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
                 }
                 base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, result_type);
+                REQUIRE(base->properties.type != NULL,
+                        KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             }
         }
     }
diff --git a/source/ast/analyzer/nodes/conditional_statement.c b/source/ast/analyzer/nodes/conditional_statement.c
index ed8180d..aa25856 100644
--- a/source/ast/analyzer/nodes/conditional_statement.c
+++ b/source/ast/analyzer/nodes/conditional_statement.c
@@ -68,6 +68,7 @@ kefir_result_t kefir_ast_analyze_conditional_statement_node(struct kefir_mem *me
 
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->condition->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->condition->source_location,
                                    "Expected if statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/do_while_statement.c b/source/ast/analyzer/nodes/do_while_statement.c
index da179cc..ba03ec5 100644
--- a/source/ast/analyzer/nodes/do_while_statement.c
+++ b/source/ast/analyzer/nodes/do_while_statement.c
@@ -64,6 +64,7 @@ kefir_result_t kefir_ast_analyze_do_while_statement_node(struct kefir_mem *mem,
                                    "Expected do while statement controlling expression to be scalar expression"));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                    "Expected do while statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/for_statement.c b/source/ast/analyzer/nodes/for_statement.c
index e71bfed..ff88e48 100644
--- a/source/ast/analyzer/nodes/for_statement.c
+++ b/source/ast/analyzer/nodes/for_statement.c
@@ -98,8 +98,8 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
     if (init_declaration) {
         REQUIRE_OK(kefir_ast_flow_control_point_bound(
             base->properties.statement_props.flow_control_statement->value.loop.continuation));
-        REQUIRE_OK(kefir_ast_flow_control_point_bound(
-            base->properties.statement_props.flow_control_statement->parent_point));
+        REQUIRE_OK(
+            kefir_ast_flow_control_point_bound(base->properties.statement_props.flow_control_statement->parent_point));
     }
 
     if (node->controlling_expr != NULL) {
@@ -109,6 +109,7 @@ kefir_result_t kefir_ast_analyze_for_statement_node(struct kefir_mem *mem, const
                                        "Expected the second clause of for statement to be an expression"));
         const struct kefir_ast_type *condition_type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+        REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                        "Expected for statement condition to be scalar expression"));
diff --git a/source/ast/analyzer/nodes/function_call.c b/source/ast/analyzer/nodes/function_call.c
index 2f6d30e..b6788c8 100644
--- a/source/ast/analyzer/nodes/function_call.c
+++ b/source/ast/analyzer/nodes/function_call.c
@@ -72,6 +72,7 @@ kefir_result_t kefir_ast_analyze_function_call_node(struct kefir_mem *mem, const
 
     const struct kefir_ast_type *func_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->function->properties.type);
+    REQUIRE(func_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(
         func_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER && func_type->referenced_type->tag == KEFIR_AST_TYPE_FUNCTION,
         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->function->source_location,
diff --git a/source/ast/analyzer/nodes/function_definition.c b/source/ast/analyzer/nodes/function_definition.c
index d242b0d..eb94edc 100644
--- a/source/ast/analyzer/nodes/function_definition.c
+++ b/source/ast/analyzer/nodes/function_definition.c
@@ -98,6 +98,7 @@ static kefir_result_t analyze_function_parameter_identifiers_impl(struct kefir_m
             }
 
             type = kefir_ast_type_conv_adjust_function_parameter(mem, context->type_bundle, original_type);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
             REQUIRE(kefir_hashtree_has(argtree, (kefir_hashtree_key_t) identifier),
                     KEFIR_SET_SOURCE_ERROR(
diff --git a/source/ast/analyzer/nodes/generic_selection.c b/source/ast/analyzer/nodes/generic_selection.c
index fa3b957..05a1ab7 100644
--- a/source/ast/analyzer/nodes/generic_selection.c
+++ b/source/ast/analyzer/nodes/generic_selection.c
@@ -36,6 +36,7 @@ kefir_result_t kefir_ast_analyze_generic_selection_node(struct kefir_mem *mem, c
     REQUIRE_OK(kefir_ast_analyze_node(mem, context, node->control));
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     kefir_bool_t matched = false;
@@ -43,8 +44,7 @@ kefir_result_t kefir_ast_analyze_generic_selection_node(struct kefir_mem *mem, c
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
         REQUIRE_OK(kefir_ast_analyze_node(mem, context, KEFIR_AST_NODE_BASE(assoc->type_name)));
-        const struct kefir_ast_type *assoc_type =
-            kefir_ast_unqualified_type(assoc->type_name->base.properties.type);
+        const struct kefir_ast_type *assoc_type = kefir_ast_unqualified_type(assoc->type_name->base.properties.type);
         REQUIRE(assoc_type->tag != KEFIR_AST_TYPE_FUNCTION &&
                     (assoc_type->tag == KEFIR_AST_TYPE_VOID || !KEFIR_AST_TYPE_IS_INCOMPLETE(assoc_type)) &&
                     !kefir_ast_type_is_variably_modified(assoc_type),
diff --git a/source/ast/analyzer/nodes/goto_statement.c b/source/ast/analyzer/nodes/goto_statement.c
index 5402151..fabc533 100644
--- a/source/ast/analyzer/nodes/goto_statement.c
+++ b/source/ast/analyzer/nodes/goto_statement.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_goto_statement_node(struct kefir_mem *mem, cons
 
         const struct kefir_ast_type *type1 =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->target->properties.type);
+        REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                        "Goto operand shall be derefenced pointer"));
diff --git a/source/ast/analyzer/nodes/init_declarator.c b/source/ast/analyzer/nodes/init_declarator.c
index 2c019c2..90d1aa5 100644
--- a/source/ast/analyzer/nodes/init_declarator.c
+++ b/source/ast/analyzer/nodes/init_declarator.c
@@ -72,12 +72,7 @@ kefir_result_t kefir_ast_analyze_init_declarator_node(struct kefir_mem *mem, con
                                                         base->properties.declaration_props.identifier, type, storage,
                                                         base->properties.declaration_props.function, alignment,
                                                         node->initializer, &base->source_location, &scoped_id);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            if (alignment != NULL) {
-                kefir_ast_alignment_free(mem, alignment);
-            }
-            return res;
-        });
+        REQUIRE_OK(res); /* The alignment might already belong to an identifier in the scope */
 
         REQUIRE(scoped_id != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST scoped identifier"));
         switch (scoped_id->klass) {
diff --git a/source/ast/analyzer/nodes/label_address.c b/source/ast/analyzer/nodes/label_address.c
index 9cc3b1b..b11daaf 100644
--- a/source/ast/analyzer/nodes/label_address.c
+++ b/source/ast/analyzer/nodes/label_address.c
@@ -43,6 +43,7 @@ kefir_result_t kefir_ast_analyze_label_address_node(struct kefir_mem *mem, const
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, kefir_ast_type_void());
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     base->properties.expression_props.scoped_id = scoped_id;
     return KEFIR_OK;
 }
diff --git a/source/ast/analyzer/nodes/return_statement.c b/source/ast/analyzer/nodes/return_statement.c
index 531d312..c777816 100644
--- a/source/ast/analyzer/nodes/return_statement.c
+++ b/source/ast/analyzer/nodes/return_statement.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_return_statement_node(struct kefir_mem *mem, co
                                        "Return statement with no expression shall appear only in void function"));
         const struct kefir_ast_type *value_type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expression->properties.type);
+        REQUIRE(value_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
 
         kefir_result_t res;
         REQUIRE_MATCH_OK(&res,
diff --git a/source/ast/analyzer/nodes/statement_expression.c b/source/ast/analyzer/nodes/statement_expression.c
index 3ba059a..5c46dba 100644
--- a/source/ast/analyzer/nodes/statement_expression.c
+++ b/source/ast/analyzer/nodes/statement_expression.c
@@ -71,6 +71,7 @@ kefir_result_t kefir_ast_analyze_statement_expression_node(struct kefir_mem *mem
 
         base->properties.type =
             KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr_statement->expression->properties.type);
+        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     } else {
         base->properties.type = kefir_ast_type_void();
     }
diff --git a/source/ast/analyzer/nodes/string_literal.c b/source/ast/analyzer/nodes/string_literal.c
index 98cc202..1dc7e8d 100644
--- a/source/ast/analyzer/nodes/string_literal.c
+++ b/source/ast/analyzer/nodes/string_literal.c
@@ -60,6 +60,7 @@ kefir_result_t kefir_ast_analyze_string_literal_node(struct kefir_mem *mem, cons
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type,
                                                  kefir_ast_constant_expression_integer(mem, node->length), NULL);
+    REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     base->properties.expression_props.constant_expression = true;
     base->properties.expression_props.addressable = true;
     base->properties.expression_props.string_literal.type = node->type;
diff --git a/source/ast/analyzer/nodes/struct_member.c b/source/ast/analyzer/nodes/struct_member.c
index e98d1be..2f92836 100644
--- a/source/ast/analyzer/nodes/struct_member.c
+++ b/source/ast/analyzer/nodes/struct_member.c
@@ -45,6 +45,7 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     const struct kefir_ast_type_qualification *qualification = NULL;
     if (base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER) {
         struct_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, struct_type);
+        REQUIRE(struct_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         REQUIRE(struct_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->structure->source_location,
                                        "Expected pointer type on the left side of arrow operator"));
@@ -75,13 +76,14 @@ kefir_result_t kefir_ast_analyze_struct_member_node(struct kefir_mem *mem, const
     REQUIRE_OK(kefir_ast_type_completion(mem, context, &type, field->type));
     if (qualification != NULL) {
         type = kefir_ast_type_qualified(mem, context->type_bundle, type, *qualification);
+        REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     REQUIRE_OK(kefir_ast_node_properties_init(&base->properties));
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = type;
-    base->properties.expression_props.lvalue = base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER ||
-                                               node->structure->properties.expression_props.lvalue;
+    base->properties.expression_props.lvalue =
+        base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER || node->structure->properties.expression_props.lvalue;
     base->properties.expression_props.addressable =
         !field->bitfield && (base->klass->type == KEFIR_AST_STRUCTURE_INDIRECT_MEMBER ||
                              node->structure->properties.expression_props.addressable);
diff --git a/source/ast/analyzer/nodes/switch_statement.c b/source/ast/analyzer/nodes/switch_statement.c
index a7ae5aa..d2330d1 100644
--- a/source/ast/analyzer/nodes/switch_statement.c
+++ b/source/ast/analyzer/nodes/switch_statement.c
@@ -53,6 +53,8 @@ kefir_result_t kefir_ast_analyze_switch_statement_node(struct kefir_mem *mem, co
 
     const struct kefir_ast_type *normalized_controlling_expr_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->expression->properties.type);
+    REQUIRE(normalized_controlling_expr_type != NULL,
+            KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_controlling_expr_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                    "Expected switch controlling expression to be an integral expression"));
diff --git a/source/ast/analyzer/nodes/unary_operation.c b/source/ast/analyzer/nodes/unary_operation.c
index e97892d..9683efb 100644
--- a/source/ast/analyzer/nodes/unary_operation.c
+++ b/source/ast/analyzer/nodes/unary_operation.c
@@ -44,6 +44,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Unary operator operand shall be an arithmetic expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_ARITHMETIC_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Unary operator operand shall be an arithmetic expression"));
@@ -63,6 +64,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Inversion operand shall be an integral expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Inversion operand shall be an integral expression"));
@@ -78,6 +80,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Logical negation operand shall be a scalar expression"));
             const struct kefir_ast_type *type1 =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type1 != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(type1),
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Logical negation operand shall be a scalar expression"));
@@ -108,8 +111,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Increment/decrement operator operand shall be a scalar lvalue"));
             if (target_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
-                const struct kefir_ast_type *referenced_type =
-                    kefir_ast_unqualified_type(target_type->referenced_type);
+                const struct kefir_ast_type *referenced_type = kefir_ast_unqualified_type(target_type->referenced_type);
                 REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(referenced_type) ||
                             (context->configuration->analysis.ext_pointer_arithmetics &&
                              referenced_type->tag == KEFIR_AST_TYPE_VOID),
@@ -131,6 +133,8 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                 context, node->arg, &base->properties.expression_props.constant_expression));
             const struct kefir_ast_type *type = node->arg->properties.type;
             base->properties.type = kefir_ast_type_pointer(mem, context->type_bundle, type);
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         } break;
 
         case KEFIR_AST_OPERATION_INDIRECTION: {
@@ -139,6 +143,7 @@ kefir_result_t kefir_ast_analyze_unary_operation_node(struct kefir_mem *mem, con
                                            "Indirection operator operand shall be a pointer"));
             const struct kefir_ast_type *type =
                 KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->arg->properties.type);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
             REQUIRE(type->tag == KEFIR_AST_TYPE_SCALAR_POINTER,
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg->source_location,
                                            "Indirection operator operand shall be a pointer"));
diff --git a/source/ast/analyzer/nodes/while_statement.c b/source/ast/analyzer/nodes/while_statement.c
index e7dd32f..34addbe 100644
--- a/source/ast/analyzer/nodes/while_statement.c
+++ b/source/ast/analyzer/nodes/while_statement.c
@@ -66,6 +66,7 @@ kefir_result_t kefir_ast_analyze_while_statement_node(struct kefir_mem *mem, con
 
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->controlling_expr->properties.type);
+    REQUIRE(condition_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     REQUIRE(KEFIR_AST_TYPE_IS_SCALAR_TYPE(condition_type),
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->controlling_expr->source_location,
                                    "Expected while statement controlling expression to be scalar expression"));
diff --git a/source/ast/constant_expression/generic_selection.c b/source/ast/constant_expression/generic_selection.c
index 7d96793..3109f93 100644
--- a/source/ast/constant_expression/generic_selection.c
+++ b/source/ast/constant_expression/generic_selection.c
@@ -41,6 +41,7 @@ kefir_result_t kefir_ast_evaluate_generic_selection_node(struct kefir_mem *mem,
 
     const struct kefir_ast_type *control_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, node->control->properties.type);
+    REQUIRE(control_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     for (const struct kefir_list_entry *iter = kefir_list_head(&node->associations); iter != NULL;
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
diff --git a/source/ast/constant_expression/lvalue_constant_reference.c b/source/ast/constant_expression/lvalue_constant_reference.c
index cfcbc0b..7747c70 100644
--- a/source/ast/constant_expression/lvalue_constant_reference.c
+++ b/source/ast/constant_expression/lvalue_constant_reference.c
@@ -142,6 +142,7 @@ static kefir_result_t visit_array_subscript(const struct kefir_ast_visitor *visi
 
         array_type =
             kefir_ast_type_unbounded_array(param->mem, param->context->type_bundle, array_type->referenced_type, NULL);
+        REQUIRE(array_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     }
 
     struct kefir_ast_constant_expression_value subscript_value;
diff --git a/source/ast/context_impl.c b/source/ast/context_impl.c
index 75c91dc..05f8f9f 100644
--- a/source/ast/context_impl.c
+++ b/source/ast/context_impl.c
@@ -63,6 +63,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_object_ide
     struct kefir_ast_alignment *alignment, kefir_ast_scoped_identifier_linkage_t linkage, kefir_bool_t external,
     struct kefir_ast_initializer *initializer) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_OBJECT;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -89,6 +90,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_object_ide
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_constant(
     struct kefir_mem *mem, struct kefir_ast_constant_expression *value, const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_ENUM_CONSTANT;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -103,6 +105,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_constant(
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_tag(struct kefir_mem *mem,
                                                                                const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_TYPE_TAG;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -116,6 +119,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_tag(s
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_type_definition(
     struct kefir_mem *mem, const struct kefir_ast_type *type) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_TYPE_DEFINITION;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -179,6 +183,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_function_i
     struct kefir_mem *mem, const struct kefir_ast_type *type, kefir_ast_function_specifier_t specifier,
     kefir_ast_scoped_identifier_storage_t storage, kefir_bool_t external, kefir_bool_t defined) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
@@ -198,6 +203,7 @@ struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_function_i
 struct kefir_ast_scoped_identifier *kefir_ast_context_allocate_scoped_label(
     struct kefir_mem *mem, struct kefir_ast_flow_control_structure *parent) {
     struct kefir_ast_scoped_identifier *scoped_id = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_scoped_identifier));
+    REQUIRE(scoped_id != NULL, NULL);
     scoped_id->klass = KEFIR_AST_SCOPE_IDENTIFIER_LABEL;
     scoped_id->cleanup.callback = NULL;
     scoped_id->cleanup.payload = NULL;
diff --git a/source/ast/declarator_specifier.c b/source/ast/declarator_specifier.c
index 9dd88ee..5413bbf 100644
--- a/source/ast/declarator_specifier.c
+++ b/source/ast/declarator_specifier.c
@@ -233,6 +233,10 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                 });
             } else {
                 entry_clone = kefir_ast_structure_declaration_entry_alloc(mem);
+                REQUIRE_ELSE(entry_clone != NULL, {
+                    kefir_ast_structure_specifier_free(mem, clone);
+                    return NULL;
+                });
 
                 struct kefir_ast_declarator_specifier *entry_specifier = NULL;
                 for (struct kefir_list_entry *iter =
@@ -260,6 +264,11 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                     ASSIGN_DECL_CAST(struct kefir_ast_structure_entry_declarator *, entry_declarator, iter->value);
                     struct kefir_ast_declarator *declarator_clone =
                         kefir_ast_declarator_clone(mem, entry_declarator->declarator);
+                    REQUIRE_ELSE(declarator_clone != NULL, {
+                        kefir_ast_structure_declaration_entry_free(mem, entry_clone);
+                        kefir_ast_structure_specifier_free(mem, clone);
+                        return NULL;
+                    });
                     struct kefir_ast_node_base *bitwidth_clone = KEFIR_AST_NODE_CLONE(mem, entry_declarator->bitwidth);
                     REQUIRE_ELSE(entry_declarator->bitwidth == NULL || bitwidth_clone != NULL, {
                         kefir_ast_declarator_free(mem, declarator_clone);
@@ -271,7 +280,9 @@ struct kefir_ast_structure_specifier *kefir_ast_structure_specifier_clone(
                                                                        bitwidth_clone);
                     REQUIRE_ELSE(res == KEFIR_OK, {
                         kefir_ast_declarator_free(mem, declarator_clone);
-                        KEFIR_AST_NODE_FREE(mem, bitwidth_clone);
+                        if (bitwidth_clone != NULL) {
+                            KEFIR_AST_NODE_FREE(mem, bitwidth_clone);
+                        }
                         kefir_ast_structure_declaration_entry_free(mem, entry_clone);
                         kefir_ast_structure_specifier_free(mem, clone);
                         return NULL;
@@ -484,7 +495,9 @@ struct kefir_ast_enum_specifier *kefir_ast_enum_specifier_clone(struct kefir_mem
 
             kefir_result_t res = kefir_ast_enum_specifier_append(mem, clone, NULL, entry->constant, value);
             REQUIRE_ELSE(res == KEFIR_OK, {
-                KEFIR_AST_NODE_FREE(mem, value);
+                if (value != NULL) {
+                    KEFIR_AST_NODE_FREE(mem, value);
+                }
                 kefir_ast_enum_specifier_free(mem, clone);
                 return NULL;
             });
diff --git a/source/ast/function_declaration_context.c b/source/ast/function_declaration_context.c
index b3805f0..8c13428 100644
--- a/source/ast/function_declaration_context.c
+++ b/source/ast/function_declaration_context.c
@@ -268,6 +268,7 @@ static kefir_result_t context_define_identifier(
 
     const struct kefir_ast_type *adjusted_type =
         kefir_ast_type_conv_adjust_function_parameter(mem, context->type_bundle, unqualified_type);
+    REQUIRE(adjusted_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
     if (adjusted_type == unqualified_type) {
         adjusted_type = type;
     }
diff --git a/source/ast/global_context.c b/source/ast/global_context.c
index eab8d4c..d37a8d6 100644
--- a/source/ast/global_context.c
+++ b/source/ast/global_context.c
@@ -458,6 +458,8 @@ kefir_result_t kefir_ast_global_context_declare_external(struct kefir_mem *mem,
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
             mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, alignment,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, true, NULL);
+        REQUIRE(ordinary_id != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -507,6 +509,8 @@ kefir_result_t kefir_ast_global_context_declare_external_thread_local(
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
             mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, alignment,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, true, NULL);
+        REQUIRE(ordinary_id != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -560,6 +564,8 @@ kefir_result_t kefir_ast_global_context_define_external(struct kefir_mem *mem, s
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
             mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN, alignment,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -581,6 +587,7 @@ kefir_result_t kefir_ast_global_context_define_external(struct kefir_mem *mem, s
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         ordinary_id->type = type;
@@ -629,6 +636,8 @@ kefir_result_t kefir_ast_global_context_define_external_thread_local(
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
             mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN_THREAD_LOCAL, alignment,
             KEFIR_AST_SCOPED_IDENTIFIER_EXTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -650,6 +659,7 @@ kefir_result_t kefir_ast_global_context_define_external_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
@@ -705,6 +715,8 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
             mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC, alignment,
             KEFIR_AST_SCOPED_IDENTIFIER_INTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -726,6 +738,7 @@ kefir_result_t kefir_ast_global_context_define_static(struct kefir_mem *mem, str
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
@@ -779,6 +792,8 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
         ordinary_id = kefir_ast_context_allocate_scoped_object_identifier(
             mem, type, KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL, alignment,
             KEFIR_AST_SCOPED_IDENTIFIER_INTERNAL_LINKAGE, false, initializer);
+        REQUIRE(ordinary_id != NULL,
+                KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST scoped identifier"));
         res = kefir_ast_identifier_flat_scope_insert(mem, &context->object_identifiers, identifier, ordinary_id);
         REQUIRE_ELSE(res == KEFIR_OK, {
             kefir_ast_context_free_scoped_identifier(mem, ordinary_id, NULL);
@@ -800,6 +815,7 @@ kefir_result_t kefir_ast_global_context_define_static_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         ordinary_id->type = type;
         ordinary_id->object.initializer = initializer;
diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 12125f2..e92f0b4 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -240,8 +240,8 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(declaration, KEFIR_SET_SOURCE_ERROR(
                                          KEFIR_ANALYSIS_ERROR, location,
                                          "External thread local identifier in block scope cannot have initializer"));
-                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(
-                    mem, local_ctx, identifier, type, alignment, location, scoped_id));
+                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(mem, local_ctx, identifier, type,
+                                                                                 alignment, location, scoped_id));
                 break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL:
@@ -673,6 +673,7 @@ kefir_result_t kefir_ast_local_context_define_static(struct kefir_mem *mem, stru
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
@@ -739,6 +740,7 @@ kefir_result_t kefir_ast_local_context_define_static_thread_local(
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
 
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
@@ -839,6 +841,7 @@ kefir_result_t kefir_ast_local_context_define_auto(struct kefir_mem *mem, struct
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
@@ -905,6 +908,7 @@ kefir_result_t kefir_ast_local_context_define_register(struct kefir_mem *mem, st
 
         if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualifications)) {
             type = kefir_ast_type_qualified(mem, &context->global->type_bundle, type, qualifications);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
         }
         REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(type),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
diff --git a/source/ast/nodes/declaration.c b/source/ast/nodes/declaration.c
index b8cde02..77dd78a 100644
--- a/source/ast/nodes/declaration.c
+++ b/source/ast/nodes/declaration.c
@@ -173,7 +173,7 @@ struct kefir_ast_declaration *kefir_ast_new_single_declaration(struct kefir_mem
                                 KEFIR_AST_NODE_BASE(declaration));
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(decl_list));
-        KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(declaration));
+        KEFIR_FREE(mem, declaration); /* Declarator and initializer are left to the caller */
         return NULL;
     });
     ASSIGN_PTR(declaration_ptr, declaration);
diff --git a/source/ast/nodes/generic_selection.c b/source/ast/nodes/generic_selection.c
index 4d48aa8..076e16a 100644
--- a/source/ast/nodes/generic_selection.c
+++ b/source/ast/nodes/generic_selection.c
@@ -95,8 +95,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
         struct kefir_ast_generic_selection_assoc *clone_assoc =
-            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc *));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc));
+        REQUIRE_ELSE(clone_assoc != NULL, {
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -104,7 +104,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
         });
 
         struct kefir_ast_node_base *clone_type_name = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(assoc->type_name));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+        REQUIRE_ELSE(clone_type_name != NULL, {
+            KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -132,7 +133,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
             return NULL;
         });
         res = kefir_list_insert_after(mem, &clone->associations, kefir_list_tail(&clone->associations), clone_assoc);
-        REQUIRE_ELSE(clone_assoc->expr != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, clone_assoc->expr);
             KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(clone_assoc->type_name));
             KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
diff --git a/source/ast/nodes/struct_member.c b/source/ast/nodes/struct_member.c
index 0568c05..bb2e14a 100644
--- a/source/ast/nodes/struct_member.c
+++ b/source/ast/nodes/struct_member.c
@@ -77,6 +77,7 @@ struct kefir_ast_struct_member *kefir_ast_new_struct_member(struct kefir_mem *me
     REQUIRE(structure != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     const char *member_copy = kefir_symbol_table_insert(mem, symbols, member, NULL);
+    REQUIRE(member_copy != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     struct kefir_ast_struct_member *struct_member = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_member));
     REQUIRE(struct_member != NULL, NULL);
@@ -106,6 +107,7 @@ struct kefir_ast_struct_member *kefir_ast_new_struct_indirect_member(struct kefi
     REQUIRE(structure != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     const char *member_copy = kefir_symbol_table_insert(mem, symbols, member, NULL);
+    REQUIRE(member_copy != NULL, NULL);
     REQUIRE(member != NULL, NULL);
     struct kefir_ast_struct_member *struct_member = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_struct_member));
     REQUIRE(struct_member != NULL, NULL);
diff --git a/source/ast/type_conv.c b/source/ast/type_conv.c
index db14f74..0fdb359 100644
--- a/source/ast/type_conv.c
+++ b/source/ast/type_conv.c
@@ -141,8 +141,10 @@ const struct kefir_ast_type *kefir_ast_type_function_default_argument_convertion
     REQUIRE(type_traits != NULL, NULL);
     REQUIRE(original != NULL, NULL);
 
-    const struct kefir_ast_type *param_type = kefir_ast_type_conv_unwrap_enumeration(
-        kefir_ast_unqualified_type(KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, type_bundle, original)));
+    const struct kefir_ast_type *converted_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, type_bundle, original);
+    REQUIRE(converted_type != NULL, NULL);
+    const struct kefir_ast_type *param_type =
+        kefir_ast_type_conv_unwrap_enumeration(kefir_ast_unqualified_type(converted_type));
     return kefir_ast_type_function_default_argument_promotion(type_traits, param_type);
 }
 
@@ -213,14 +215,17 @@ const struct kefir_ast_type *kefir_ast_type_conv_adjust_function_parameter(struc
         case KEFIR_AST_TYPE_ARRAY: {
             const struct kefir_ast_type *adjusted =
                 kefir_ast_type_pointer(mem, type_bundle, type->array_type.element_type);
+            REQUIRE(adjusted != NULL, NULL);
             if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&type->array_type.qualifications)) {
                 adjusted = kefir_ast_type_qualified(mem, type_bundle, adjusted, type->array_type.qualifications);
+                REQUIRE(adjusted != NULL, NULL);
             }
             return adjusted;
         }
 
         case KEFIR_AST_TYPE_VA_LIST: {
             const struct kefir_ast_type *adjusted = kefir_ast_type_pointer(mem, type_bundle, type);
+            REQUIRE(adjusted != NULL, NULL);
             return adjusted;
         }
 
diff --git a/source/codegen/amd64/system-v/abi/function.c b/source/codegen/amd64/system-v/abi/function.c
index 44b4c54..c5390ed 100644
--- a/source/codegen/amd64/system-v/abi/function.c
+++ b/source/codegen/amd64/system-v/abi/function.c
@@ -126,12 +126,14 @@ static kefir_result_t calculate_frame_temporaries(struct kefir_mem *mem,
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, false);
+            REQUIRE(decl != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_INVOKEV) {
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, true);
+            REQUIRE(decl != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_VARARG_GET) {
diff --git a/source/ir/module.c b/source/ir/module.c
index be53c7b..4239423 100644
--- a/source/ir/module.c
+++ b/source/ir/module.c
@@ -189,6 +189,7 @@ struct kefir_ir_type *kefir_ir_module_new_type(struct kefir_mem *mem, struct kef
     REQUIRE(mem != NULL, NULL);
     REQUIRE(module != NULL, NULL);
     struct kefir_ir_type *type = KEFIR_MALLOC(mem, sizeof(struct kefir_ir_type));
+    REQUIRE(type != NULL, NULL);
     kefir_result_t result = kefir_ir_type_alloc(mem, size, type);
     REQUIRE_ELSE(result == KEFIR_OK, {
         KEFIR_FREE(mem, type);
@@ -206,8 +207,6 @@ struct kefir_ir_type *kefir_ir_module_new_type(struct kefir_mem *mem, struct kef
                                        (kefir_hashtree_value_t) type);
         REQUIRE_ELSE(result == KEFIR_OK, {
             kefir_list_pop(mem, &module->types, kefir_list_tail(&module->types));
-            kefir_ir_type_free(mem, type);
-            KEFIR_FREE(mem, type);
             return NULL;
         });
     }
@@ -234,7 +233,11 @@ struct kefir_ir_function_decl *kefir_ir_module_new_function_declaration(struct k
         REQUIRE(returns != NULL, NULL);
     }
 
-    const char *symbol = kefir_ir_module_symbol(mem, module, name, NULL);
+    const char *symbol = NULL;
+    if (name != NULL) {
+        symbol = kefir_ir_module_symbol(mem, module, name, NULL);
+        REQUIRE(symbol != NULL, NULL);
+    }
     kefir_id_t func_decl_id = module->next_function_decl_id;
     struct kefir_ir_function_decl *decl = KEFIR_MALLOC(mem, sizeof(struct kefir_ir_function_decl));
     REQUIRE(decl != NULL, NULL);
diff --git a/source/ir/type_tree.c b/source/ir/type_tree.c
index f8cb074..ceda173 100644
--- a/source/ir/type_tree.c
+++ b/source/ir/type_tree.c
@@ -78,8 +78,6 @@ static struct kefir_ir_type_tree_node *alloc_node(struct kefir_mem *mem, struct
     }
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_hashtree_delete(mem, &tree->index, (kefir_hashtree_key_t) index);
-        kefir_list_free(mem, &node->subtypes);
-        KEFIR_FREE(mem, node);
         return NULL;
     });
 
diff --git a/source/parser/builder.c b/source/parser/builder.c
index 76c32e2..4467483 100644
--- a/source/parser/builder.c
+++ b/source/parser/builder.c
@@ -97,7 +97,7 @@ kefir_result_t kefir_parser_ast_builder_scan(struct kefir_mem *mem, struct kefir
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, node);
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, node);
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
@@ -662,6 +662,7 @@ kefir_result_t kefir_parser_ast_builder_compound_literal(struct kefir_mem *mem,
 
     res = kefir_parser_ast_builder_push(mem, builder, KEFIR_AST_NODE_BASE(compound));
     REQUIRE_ELSE(res == KEFIR_OK, {
+        compound->initializer = NULL; /* Initializer is left to the caller */
         KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(compound));
         return res;
     });
@@ -716,13 +717,15 @@ kefir_result_t kefir_parser_ast_builder_init_declarator(struct kefir_mem *mem, s
         kefir_list_insert_after(mem, &decl_list->init_declarators, kefir_list_tail(&decl_list->init_declarators),
                                 KEFIR_AST_NODE_BASE(init_declarator));
     REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(init_declarator));
+        KEFIR_FREE(mem, init_declarator); /* Declarator and initializer are left to the caller */
         KEFIR_AST_NODE_FREE(mem, declaration);
         return res;
     });
 
     res = kefir_parser_ast_builder_push(mem, builder, declaration);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        init_declarator->declarator = NULL;
+        init_declarator->initializer = NULL;
         KEFIR_AST_NODE_FREE(mem, declaration);
         return res;
     });
diff --git a/source/parser/rules/declaration_specifier.c b/source/parser/rules/declaration_specifier.c
index 04edf9b..021d672 100644
--- a/source/parser/rules/declaration_specifier.c
+++ b/source/parser/rules/declaration_specifier.c
@@ -290,7 +290,9 @@ static kefir_result_t scan_enum_field_declaration(struct kefir_mem *mem, struct
 
     res = kefir_ast_enum_specifier_append(mem, specifier, parser->symbols, identifier, value);
     REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_AST_NODE_FREE(mem, value);
+        if (value != NULL) {
+            KEFIR_AST_NODE_FREE(mem, value);
+        }
         return res;
     });
 
diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index c9f5e97..e80475c 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -400,6 +400,7 @@ static kefir_result_t scan_function(struct kefir_mem *mem, struct kefir_parser *
                                     struct kefir_ast_declarator **declarator_ptr) {
     struct kefir_source_location source_location = *PARSER_TOKEN_LOCATION(parser, 0);
     struct kefir_ast_declarator *declarator = kefir_ast_declarator_function(mem, *declarator_ptr);
+    REQUIRE(declarator != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST declarator"));
     kefir_result_t res = scan_function_impl(mem, parser, abstract, declarator);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_free(mem, declarator);
diff --git a/source/parser/rules/initializer_list.c b/source/parser/rules/initializer_list.c
index 803742c..a5207ce 100644
--- a/source/parser/rules/initializer_list.c
+++ b/source/parser/rules/initializer_list.c
@@ -55,7 +55,7 @@ static kefir_result_t scan_initializer_list(struct kefir_mem *mem, struct kefir_
     REQUIRE(PARSER_TOKEN_IS_LEFT_BRACE(parser, 0), KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match initializer list"));
     REQUIRE_OK(PARSER_SHIFT(parser));
     *initializer = kefir_ast_new_list_initializer(mem);
-    REQUIRE(initializer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocae AST initializer list"));
+    REQUIRE(*initializer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocae AST initializer list"));
     (*initializer)->source_location = *PARSER_TOKEN_LOCATION(parser, 0);
 
     kefir_bool_t scan_initializers = !PARSER_TOKEN_IS_RIGHT_BRACE(parser, 0);
-- 
2.43.0


From 07db83df531109939bbd8f2836314ab7bacdd601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:45 +0000
Subject: [PATCH 78/89] fix: parse assignment expressions without reparsing the
 operand, which took exponential time in the nesting depth

---
 source/parser/rules/assignment_expression.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/source/parser/rules/assignment_expression.c b/source/parser/rules/assignment_expression.c
index 5bfefff..12132a7 100644
--- a/source/parser/rules/assignment_expression.c
+++ b/source/parser/rules/assignment_expression.c
@@ -30,7 +30,7 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid parser AST builder"));
     struct kefir_parser *parser = builder->parser;
 
-    REQUIRE_OK(kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, unary_expression), NULL));
+    REQUIRE_OK(kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, conditional_expression), NULL));
     kefir_result_t res;
     if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_ASSIGN)) {
         REQUIRE_OK(PARSER_SHIFT(parser));
@@ -120,27 +120,14 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
             KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                    "Expected assignment expression"));
         REQUIRE_OK(kefir_parser_ast_builder_assignment_operator(mem, builder, KEFIR_AST_ASSIGNMENT_BITWISE_OR));
-    } else {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Expected assignment operator");
     }
 
     return KEFIR_OK;
 }
 
-static kefir_result_t reduce_assignment(struct kefir_mem *mem, struct kefir_parser *parser,
-                                        struct kefir_ast_node_base **result, void *payload) {
-    APPLY_PROLOGUE(mem, parser, result, payload);
-    REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
-    return KEFIR_OK;
-}
-
 kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(assignment_expression)(struct kefir_mem *mem, struct kefir_parser *parser,
                                                                   struct kefir_ast_node_base **result, void *payload) {
     APPLY_PROLOGUE(mem, parser, result, payload);
-    kefir_result_t res = kefir_parser_apply(mem, parser, result, reduce_assignment, NULL);
-    if (res == KEFIR_NO_MATCH) {
-        res = KEFIR_PARSER_RULE_APPLY(mem, parser, conditional_expression, result);
-    }
-    REQUIRE_OK(res);
+    REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
     return KEFIR_OK;
 }
-- 
2.43.0


From 8431bf1544c9b2297293915bf23a601e13f21b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:34 +0000
Subject: [PATCH 79/89] fix: end an unterminated header name at a null
 character or the end of input instead of looping forever

---
 source/lexer/tokens/pp_header_name.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lexer/tokens/pp_header_name.c b/source/lexer/tokens/pp_header_name.c
index 2963165..22c8d0b 100644
--- a/source/lexer/tokens/pp_header_name.c
+++ b/source/lexer/tokens/pp_header_name.c
@@ -42,9 +42,9 @@ static kefir_result_t match_header_name(struct kefir_mem *mem, struct kefir_lexe
     kefir_bool_t scan_pp_header_name = true;
     while (scan_pp_header_name) {
         chr = kefir_lexer_source_cursor_at(lexer->cursor, 0);
-        REQUIRE(chr != lexer->context->newline,
+        REQUIRE(chr != lexer->context->newline && chr != U'\0',
                 KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &lexer->cursor->location,
-                                       "Unexpected newline in preprocessor header name"));
+                                       "Unexpected newline or end of input in preprocessor header name"));
         scan_pp_header_name = chr != terminator;
         if (scan_pp_header_name) {
             REQUIRE_OK(kefir_lexer_source_cursor_next(lexer->cursor, 1));
-- 
2.43.0


From 5e8c3c9d4bd5bb6543123bed104de91d074fac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 80/89] fix: accept a statement expression that ends in an
 empty statement instead of dereferencing a null pointer

---
 source/ast-translator/nodes/statement_expression.c |  4 +++-
 source/ast/analyzer/nodes/statement_expression.c   | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/ast-translator/nodes/statement_expression.c b/source/ast-translator/nodes/statement_expression.c
index 46cecac..400ffee 100644
--- a/source/ast-translator/nodes/statement_expression.c
+++ b/source/ast-translator/nodes/statement_expression.c
@@ -57,7 +57,9 @@ kefir_result_t kefir_ast_translate_statement_expression_node(struct kefir_mem *m
         REQUIRE_MATCH_OK(&res, kefir_ast_downcast_expression_statement(node->result, &expr_statement, false),
                          KEFIR_SET_ERROR(KEFIR_INVALID_STATE,
                                          "Last statement of statement expression shall be an expression statement"));
-        REQUIRE_OK(kefir_ast_translate_expression(mem, expr_statement->expression, builder, context));
+        if (expr_statement->expression != NULL) {
+            REQUIRE_OK(kefir_ast_translate_expression(mem, expr_statement->expression, builder, context));
+        }
     }
 
     if (node->base.properties.expression_props.flow_control_statement->value.block.contains_vla) {
diff --git a/source/ast/analyzer/nodes/statement_expression.c b/source/ast/analyzer/nodes/statement_expression.c
index 5c46dba..ce69ce0 100644
--- a/source/ast/analyzer/nodes/statement_expression.c
+++ b/source/ast/analyzer/nodes/statement_expression.c
@@ -69,9 +69,14 @@ kefir_result_t kefir_ast_analyze_statement_expression_node(struct kefir_mem *mem
             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->result->source_location,
                                    "Last statement of statement expression shall be an expression statement"));
 
-        base->properties.type =
-            KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle, expr_statement->expression->properties.type);
-        REQUIRE(base->properties.type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        if (expr_statement->expression != NULL) {
+            base->properties.type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->type_bundle,
+                                                                       expr_statement->expression->properties.type);
+            REQUIRE(base->properties.type != NULL,
+                    KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to allocate AST type"));
+        } else {
+            base->properties.type = kefir_ast_type_void();
+        }
     } else {
         base->properties.type = kefir_ast_type_void();
     }
-- 
2.43.0


From cef4738901f8a95a99f24c0fc7e31e23a3402ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 81/89] fix: avoid signed overflow in enumeration values and
 pointer subtraction of the most negative constant

---
 source/ast/analyzer/declarator.c                  | 4 +++-
 source/ast/constant_expression/binary_operation.c | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 3889dac..724a063 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -271,8 +271,10 @@ static kefir_result_t resolve_enum_type(struct kefir_mem *mem, const struct kefi
             min_constant = MIN(min_constant, constant_value);
             max_constant = MAX(max_constant, constant_value);
             REQUIRE_OK(context->define_constant(
-                mem, context, entry->constant, kefir_ast_constant_expression_integer(mem, constant_value++),
+                mem, context, entry->constant, kefir_ast_constant_expression_integer(mem, constant_value),
                 context->type_traits->underlying_enumeration_type, &decl_specifier->source_location));
+            constant_value =
+                (kefir_ast_constant_expression_int_t) ((kefir_ast_constant_expression_uint_t) constant_value + 1);
         }
 
         if (!context->configuration->analysis.fixed_enum_type && kefir_list_length(&specifier->entries) > 0) {
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index 5849973..00a53a1 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -190,7 +190,7 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                             KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->arg2->source_location,
                                                    "Second subtraction operand shall have integral type"));
                     REQUIRE_OK(evaluate_pointer_offset(mem, context, KEFIR_AST_NODE_BASE(node), &arg1_value.pointer,
-                                                       -arg2_value.integer, value));
+                                                       (kefir_ast_constant_expression_int_t) -arg2_value.uinteger, value));
                 }
             } else if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-- 
2.43.0


From b99b8c5b96ced37d289a4440b13b1f77f7d9ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:34 +0000
Subject: [PATCH 82/89] fix: avoid signed overflow after the largest
 enumeration value

---
 source/ast/analyzer/type.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/ast/analyzer/type.c b/source/ast/analyzer/type.c
index 2727b1c..740fc8c 100644
--- a/source/ast/analyzer/type.c
+++ b/source/ast/analyzer/type.c
@@ -40,12 +40,13 @@ static kefir_result_t analyze_enum(struct kefir_mem *mem, const struct kefir_ast
                 REQUIRE(enumerator->value->value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location,
                                                "Enumerator constant expression shall have integral type"));
-                next_value = enumerator->value->value.integer + 1;
+                next_value = (kefir_ast_constant_expression_int_t) (enumerator->value->value.uinteger + 1);
             } else {
                 enumerator->value = kefir_ast_constant_expression_integer(mem, next_value);
                 REQUIRE(enumerator->value != NULL,
                         KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate constant expression"));
-                next_value++;
+                next_value =
+                    (kefir_ast_constant_expression_int_t) ((kefir_ast_constant_expression_uint_t) next_value + 1);
             }
         }
     }
-- 
2.43.0


From b3a9e49516b14f335d2a4fee4d8f132dc9df5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:43 +0000
Subject: [PATCH 83/89] fix: accept the documented options --dump-asm and
 --include-path

---
 source/cli/options.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cli/options.c b/source/cli/options.c
index 0a5aaad..3c791e4 100644
--- a/source/cli/options.c
+++ b/source/cli/options.c
@@ -153,6 +153,7 @@ static struct CliOption Options[] = {
     SIMPLE(0, "dump-tokens", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_TOKENS, action),
     SIMPLE(0, "dump-ast", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_AST, action),
     SIMPLE(0, "dump-ir", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_IR, action),
+    SIMPLE(0, "dump-asm", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_ASSEMBLY, action),
     SIMPLE(0, "dump-runtime-code", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_RUNTIME_CODE, action),
     SIMPLE(0, "json-errors", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ERROR_REPORT_JSON, error_report_type),
     SIMPLE(0, "tabular-errors", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ERROR_REPORT_TABULAR, error_report_type),
@@ -163,6 +164,7 @@ static struct CliOption Options[] = {
 
     CUSTOM('D', "define", true, define_hook),
     CUSTOM('I', "include-dir", true, include_hook),
+    CUSTOM(0, "include-path", true, include_hook),
     CUSTOM(0, "include", true, include_file_hook),
     SIMPLE('h', "help", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_HELP, action),
     SIMPLE('v', "version", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_VERSION, action),
-- 
2.43.0


From 4b50a39a889c55d07cb1f68dc982b996119be2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:59 +0000
Subject: [PATCH 84/89] fix: report failures to write the output, and write the
 runtime code to the output file

---
 source/main/main.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/main/main.c b/source/main/main.c
index 4aef7b9..97046e1 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -60,6 +60,12 @@ static kefir_result_t open_output(const char *filepath, FILE **output) {
     return KEFIR_OK;
 }
 
+static kefir_result_t close_output(FILE *output) {
+    const kefir_bool_t failed = ferror(output) != 0;
+    REQUIRE(fclose(output) == 0 && !failed, KEFIR_SET_OS_ERROR("Failed to write output"));
+    return KEFIR_OK;
+}
+
 static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_options *options,
                                        kefir_result_t (*action)(struct kefir_mem *, struct kefir_cli_options *,
                                                                 struct kefir_compiler_context *, const char *,
@@ -111,7 +117,7 @@ static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_o
     compiler.translator_configuration.empty_structs = options->features.empty_structs;
 
     REQUIRE_OK(action(mem, options, &compiler, source_id, input.content, input.length, output));
-    fclose(output);
+    REQUIRE_OK(close_output(output));
     REQUIRE_OK(kefir_compiler_context_free(mem, &compiler));
     REQUIRE_OK(kefir_preprocessor_filesystem_source_locator_free(mem, &source_locator));
     REQUIRE_OK(kefir_cli_input_close(mem, &input));
@@ -182,7 +188,6 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     REQUIRE_OK(build_predefined_macros(mem, options, compiler));
     REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_preprocessor_format(output, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
     REQUIRE_OK(kefir_token_buffer_free(mem, &tokens));
     return KEFIR_OK;
@@ -202,7 +207,6 @@ static kefir_result_t dump_tokens_impl(struct kefir_mem *mem, struct kefir_cli_o
     REQUIRE_OK(lex_file(mem, options, compiler, source_id, source, length, &tokens));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_token_buffer_format(&json, &tokens, options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -228,7 +232,6 @@ static kefir_result_t dump_ast_impl(struct kefir_mem *mem, struct kefir_cli_opti
     REQUIRE_OK(kefir_compiler_analyze(mem, compiler, KEFIR_AST_NODE_BASE(unit)));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_ast_format(&json, KEFIR_AST_NODE_BASE(unit), options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -304,7 +307,11 @@ static kefir_result_t action_dump_runtime_code(struct kefir_mem *mem, struct kef
     REQUIRE_OK(kefir_compiler_profile(&profile, options->target_profile));
     REQUIRE(profile.runtime_code != NULL,
             KEFIR_SET_ERROR(KEFIR_NOT_SUPPORTED, "Runtime code is not available for specified profile"));
-    printf("%s", profile.runtime_code);
+
+    FILE *output = NULL;
+    REQUIRE_OK(open_output(options->output_filepath, &output));
+    fprintf(output, "%s", profile.runtime_code);
+    REQUIRE_OK(close_output(output));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From db550022ac59d775849da8db9cb0980248cb8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:57 +0000
Subject: [PATCH 85/89] fix: preprocess files given with --include when only
 preprocessing

---
 headers/kefir/compiler/compiler.h |  2 ++
 source/compiler/compiler.c        | 25 ++++++++++++++++++++-----
 source/main/main.c                | 12 ++++++++----
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/headers/kefir/compiler/compiler.h b/headers/kefir/compiler/compiler.h
index 2f35008..0195aa5 100644
--- a/headers/kefir/compiler/compiler.h
+++ b/headers/kefir/compiler/compiler.h
@@ -78,6 +78,8 @@ kefir_result_t kefir_compiler_preprocess_lex(struct kefir_mem *, struct kefir_co
                                              const char *);
 kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *, struct kefir_compiler_context *,
                                                  struct kefir_token_buffer *, const char *, const char *);
+kefir_result_t kefir_compiler_preprocess_include_lex(struct kefir_mem *, struct kefir_compiler_context *,
+                                                     struct kefir_token_buffer *, const char *, const char *);
 kefir_result_t kefir_compiler_lex(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
                                   const char *, kefir_size_t, const char *);
 kefir_result_t kefir_compiler_parse(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
diff --git a/source/compiler/compiler.c b/source/compiler/compiler.c
index 8937a8a..1649c45 100644
--- a/source/compiler/compiler.c
+++ b/source/compiler/compiler.c
@@ -242,9 +242,11 @@ kefir_result_t kefir_compiler_preprocess_lex(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct kefir_compiler_context *context,
-                                                 struct kefir_token_buffer *buffer, const char *source_id,
-                                                 const char *filepath) {
+static kefir_result_t preprocess_include_impl(
+    struct kefir_mem *mem, struct kefir_compiler_context *context, struct kefir_token_buffer *buffer,
+    const char *source_id, const char *filepath,
+    kefir_result_t (*preprocess)(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
+                                 const char *, kefir_size_t, const char *, const char *)) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid compiler context"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -256,8 +258,7 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
     REQUIRE_OK(context->preprocessor_context.source_locator->open(mem, context->preprocessor_context.source_locator,
                                                                   filepath, false, NULL, &source_file));
 
-    res = kefir_compiler_preprocess_lex(mem, context, buffer, source_file.cursor.content, source_file.cursor.length,
-                                        source_id, filepath);
+    res = preprocess(mem, context, buffer, source_file.cursor.content, source_file.cursor.length, source_id, filepath);
     REQUIRE_ELSE(res == KEFIR_OK, {
         source_file.close(mem, &source_file);
         return res;
@@ -270,6 +271,20 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                                 struct kefir_token_buffer *buffer, const char *source_id,
+                                                 const char *filepath) {
+    REQUIRE_OK(preprocess_include_impl(mem, context, buffer, source_id, filepath, kefir_compiler_preprocess));
+    return KEFIR_OK;
+}
+
+kefir_result_t kefir_compiler_preprocess_include_lex(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                                     struct kefir_token_buffer *buffer, const char *source_id,
+                                                     const char *filepath) {
+    REQUIRE_OK(preprocess_include_impl(mem, context, buffer, source_id, filepath, kefir_compiler_preprocess_lex));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_compiler_lex(struct kefir_mem *mem, struct kefir_compiler_context *context,
                                   struct kefir_token_buffer *buffer, const char *content, kefir_size_t length,
                                   const char *source_id) {
diff --git a/source/main/main.c b/source/main/main.c
index 97046e1..0fe06f8 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -154,10 +154,13 @@ static kefir_result_t build_predefined_macros(struct kefir_mem *mem, struct kefi
 
 static kefir_result_t include_predefined(struct kefir_mem *mem, struct kefir_cli_options *options,
                                          struct kefir_compiler_context *compiler, const char *source_id,
-                                         struct kefir_token_buffer *tokens) {
+                                         struct kefir_token_buffer *tokens,
+                                         kefir_result_t (*include)(struct kefir_mem *, struct kefir_compiler_context *,
+                                                                   struct kefir_token_buffer *, const char *,
+                                                                   const char *)) {
     for (const struct kefir_list_entry *iter = kefir_list_head(&options->include_files); iter != NULL;
          kefir_list_next(&iter)) {
-        REQUIRE_OK(kefir_compiler_preprocess_include(mem, compiler, tokens, source_id, (const char *) iter->value));
+        REQUIRE_OK(include(mem, compiler, tokens, source_id, (const char *) iter->value));
     }
     return KEFIR_OK;
 }
@@ -172,7 +175,8 @@ static kefir_result_t lex_file(struct kefir_mem *mem, struct kefir_cli_options *
         if (!options->default_pp_timestamp) {
             compiler->preprocessor_context.environment.timestamp = options->pp_timestamp;
         }
-        REQUIRE_OK(include_predefined(mem, options, compiler, source_id, tokens));
+        REQUIRE_OK(
+            include_predefined(mem, options, compiler, source_id, tokens, kefir_compiler_preprocess_include_lex));
         REQUIRE_OK(
             kefir_compiler_preprocess_lex(mem, compiler, tokens, source, length, source_id, options->input_filepath));
     }
@@ -186,7 +190,7 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     struct kefir_token_buffer tokens;
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
     REQUIRE_OK(build_predefined_macros(mem, options, compiler));
-    REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
+    REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens, kefir_compiler_preprocess_include));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
     REQUIRE_OK(kefir_preprocessor_format(output, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
     REQUIRE_OK(kefir_token_buffer_free(mem, &tokens));
-- 
2.43.0


From faec4c635f4a4662ac5f3f219561050122437178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:57 +0000
Subject: [PATCH 86/89] fix: apply --pp-timestamp when only preprocessing

---
 source/main/main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/main/main.c b/source/main/main.c
index 0fe06f8..1fa99ec 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -116,6 +116,10 @@ static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_o
 
     compiler.translator_configuration.empty_structs = options->features.empty_structs;
 
+    if (!options->default_pp_timestamp) {
+        compiler.preprocessor_context.environment.timestamp = options->pp_timestamp;
+    }
+
     REQUIRE_OK(action(mem, options, &compiler, source_id, input.content, input.length, output));
     REQUIRE_OK(close_output(output));
     REQUIRE_OK(kefir_compiler_context_free(mem, &compiler));
@@ -172,9 +176,6 @@ static kefir_result_t lex_file(struct kefir_mem *mem, struct kefir_cli_options *
         REQUIRE_OK(kefir_compiler_lex(mem, compiler, tokens, source, length, source_id));
     } else {
         REQUIRE_OK(build_predefined_macros(mem, options, compiler));
-        if (!options->default_pp_timestamp) {
-            compiler->preprocessor_context.environment.timestamp = options->pp_timestamp;
-        }
         REQUIRE_OK(
             include_predefined(mem, options, compiler, source_id, tokens, kefir_compiler_preprocess_include_lex));
         REQUIRE_OK(
-- 
2.43.0


From b9923f8e2757aba250c9849a60e0e9fcbcebcef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:57 +0000
Subject: [PATCH 87/89] fix: refuse ambiguous abbreviations of options instead
 of taking the first match

---
 source/cli/options.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cli/options.c b/source/cli/options.c
index 3c791e4..09d4ead 100644
--- a/source/cli/options.c
+++ b/source/cli/options.c
@@ -229,25 +229,25 @@ static kefir_result_t parse_impl_internal(struct kefir_mem *mem, struct kefir_cl
     for (kefir_size_t i = 0; res == KEFIR_OK && i < Option_Count; i++) {
         long_options[i] =
             (struct option){Options[i].long_option, Options[i].has_argument ? required_argument : no_argument, NULL,
-                            Options[i].short_option};
+                            (1 << CHAR_BIT) + (int) i};
     }
     long_options[Option_Count] = (struct option){0};
 
-    int long_option_index = 0;
-    for (int c = getopt_long(argc, argv, short_options, long_options, &long_option_index); res == KEFIR_OK && c != -1;
-         c = getopt_long(argc, argv, short_options, long_options, &long_option_index)) {
+    for (int c = getopt_long(argc, argv, short_options, long_options, NULL); res == KEFIR_OK && c != -1;
+         c = getopt_long(argc, argv, short_options, long_options, NULL)) {
 
         struct CliOption *cli_option = NULL;
         if (c == '?') {
             res = KEFIR_SET_ERRORF(KEFIR_UI_ERROR, "Unknown option %s", argv[optind - 1]);
         } else if (c == ':') {
             res = KEFIR_SET_ERRORF(KEFIR_UI_ERROR, "Expected parameter for %s option", argv[optind - 1]);
-        } else if (c != 0) {
+        } else if (c < (1 << CHAR_BIT)) {
             cli_option = short_option_map[c];
             REQUIRE_CHAIN_SET(&res, cli_option != NULL,
                               KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "CLI option is ill-defined"));
         } else {
-            cli_option = &Options[long_option_index];
+            // Long options have distinct values, so that getopt refuses ambiguous abbreviations
+            cli_option = &Options[c - (1 << CHAR_BIT)];
         }
 
         if (res == KEFIR_OK && cli_option->prehook != NULL) {
-- 
2.43.0


From 45b5041de15a3e1d0ec7f6d0c05caf74462ea861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:53 +0000
Subject: [PATCH 88/89] fix: go on to the next include directory when one on
 the search path is not a directory

---
 source/cli/filesystem_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cli/filesystem_source.c b/source/cli/filesystem_source.c
index 6fb14c5..77e8154 100644
--- a/source/cli/filesystem_source.c
+++ b/source/cli/filesystem_source.c
@@ -95,7 +95,7 @@ static kefir_result_t try_open_file(struct kefir_mem *mem, const char *root, con
     }
     char *resolved_path = realpath(path, NULL);
     KEFIR_FREE(mem, path);
-    if (resolved_path == NULL && errno == ENOENT) {
+    if (resolved_path == NULL && (errno == ENOENT || errno == ENOTDIR)) {
         return KEFIR_SET_ERROR(KEFIR_NOT_FOUND, "Cannot find requested file");
     } else if (resolved_path == NULL) {
         return KEFIR_SET_OS_ERROR("Failed to determine real path");
-- 
2.43.0


From 43d343b0ee92d4be2fcc57961dde145dca34813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:53 +0000
Subject: [PATCH 89/89] fix: end a line's whitespace token at the newline, so
 that #line counts a comment that starts the next line

---
 source/lexer/tokens/whitespace.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/lexer/tokens/whitespace.c b/source/lexer/tokens/whitespace.c
index 4a25593..59e76f1 100644
--- a/source/lexer/tokens/whitespace.c
+++ b/source/lexer/tokens/whitespace.c
@@ -86,8 +86,10 @@ kefir_result_t kefir_lexer_cursor_match_whitespace(struct kefir_mem *mem, struct
     while (continue_scan) {
         enum whitespace_match matched = WHITESPACE_NO_MATCH;
         REQUIRE_OK(skip_whitespaces(lexer->context, lexer->cursor, &matched));
-        REQUIRE_OK(skip_multiline_comment(lexer->cursor, &matched));
-        REQUIRE_OK(skip_oneline_comment(lexer->context, lexer->cursor, &matched));
+        if (matched != WHITESPACE_NEWLINE) {
+            REQUIRE_OK(skip_multiline_comment(lexer->cursor, &matched));
+            REQUIRE_OK(skip_oneline_comment(lexer->context, lexer->cursor, &matched));
+        }
         continue_scan = matched != WHITESPACE_NO_MATCH && token == NULL;
         match = MAX(match, matched);
     }
-- 
2.43.0

