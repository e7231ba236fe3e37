From 50b66e1930c370fa1f80e1ef2f5e50920867eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 001/117] fix: x86: do not clobber the address base of the
 second source in binary operations

When the destination register is also the base or index register of the
memory operand in src2, loading src1 into the destination destroys the
address before it is used.
---
 sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..3ed33f3 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From 34844dc3464806addc5249131ebbed2afc3ab123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 002/117] fix: accept f32/f64 return types in the argument
 check of sljit_set_context

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..a4195ae 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1519,7 +1519,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
+	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) <= SLJIT_ARG_TYPE_F32);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From 6dfff8fea5c6d79845274ca2529583e50ea58aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 003/117] fix: x86-64: keep the saved shift register when src2
 of a shift has a 64 bit offset

The TMP_REG2 register is used for computing memory addresses with large
offsets, which overwrote the saved value of the shift register (rcx).
---
 sljit_src/sljitNativeX86_common.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 3ed33f3..760f4ad 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,21 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
 	mode32 = compiler->mode32;
+
+	/* Loading src2 may use TMP_REG2, so it cannot hold the
+	   original value of the shift register at that point. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
+
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From c49432dc3434ed1fb74295eae4e6aa967cc6844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 004/117] fix: move src1 to dst in sljit_emit_shift_into when
 the immediate shift amount is zero

All back ends returned without emitting any code, so the destination
kept its previous value when it was not the same register as src1.
---
 sljit_src/sljitNativeARM_32.c       | 8 ++++++--
 sljit_src/sljitNativeARM_64.c       | 8 ++++++--
 sljit_src/sljitNativeARM_T2_32.c    | 8 ++++++--
 sljit_src/sljitNativeLOONGARCH_64.c | 8 ++++++--
 sljit_src/sljitNativeMIPS_common.c  | 8 ++++++--
 sljit_src/sljitNativePPC_common.c   | 8 ++++++--
 sljit_src/sljitNativeRISCV_common.c | 8 ++++++--
 sljit_src/sljitNativeS390X.c        | 8 ++++++--
 sljit_src/sljitNativeX86_common.c   | 8 ++++++--
 9 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..0be8a26 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2609,8 +2609,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		FAIL_IF(push_inst(compiler, MOV | RD(dst_reg) | RM(src1_reg) | ((sljit_ins)(is_left ? 0 : 1) << 5) | ((sljit_ins)src3w << 7)));
 		src3w = (src3w ^ 0x1f) + 1;
diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7a68792..1b2607a 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1828,8 +1828,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		mask = inv_bits ? 0x1f : 0x3f;
 		src3w &= mask;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left)
 			src3w = (src3w ^ mask) + 1;
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..1479ace 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2166,8 +2166,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (IS_2_LO_REGS(dst_reg, src1_reg))
 			FAIL_IF(push_inst16(compiler, (is_left ? LSLSI : LSRSI) | RD3(dst_reg) | RN3(src1_reg) | ((sljit_ins)src3w << 6)));
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..ac09132 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2125,8 +2125,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = INST(SLLI, op) | IMM_I12(src3w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..aa0ddd5 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2745,8 +2745,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SELECT_OP3(op, src3w, DSLL, DSLL32, SLL);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..15e8a5a 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2066,8 +2066,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (!(op & SLJIT_32)) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..299f24b 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2806,8 +2806,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SLLI | WORD | IMM_I(src3w);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..ba38522 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3059,8 +3059,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (op & SLJIT_32) {
 			if (dst_r == src1_r) {
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 760f4ad..42f1b0d 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2868,8 +2868,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			if (dst_reg == src1_reg && dstw == src1w)
+				return SLJIT_SUCCESS;
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From 7e03ad9ca589cedcb8379c37037dd144e296fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 005/117] fix: x86: keep src3 and src1 intact when
 sljit_emit_shift_into moves src1 into dst

The address of a memory src3 may depend on dst_reg, and the register used by
variable shifts contains src3 when src1 is moved late.
---
 sljit_src/sljitNativeX86_common.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 42f1b0d..11beb94 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2932,7 +2932,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2956,7 +2956,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2986,6 +2986,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The shift register contains src3 at this point. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG) {
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
+#else /* !SLJIT_CONFIG_X86_32 */
+				src1_reg = TMP_REG1;
+#endif /* SLJIT_CONFIG_X86_32 */
+			}
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From c4071d3b01a080a2b52f26804df1ce7e4e11558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 006/117] fix: keep the flag type valid after a rewritable
 sljit_emit_op2cmpz

The SLJIT_REWRITABLE_JUMP bit was recorded as part of the last flag type, so
the argument checks rejected instructions which use the flag.
---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index a4195ae..cf74dd3 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2578,7 +2578,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op2cmpz(struct sljit_comp
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src1, src1w);
 	FUNCTION_CHECK_SRC(src2, src2w);
-	compiler->last_flags = GET_FLAG_TYPE(op) | (op & SLJIT_32);
+	compiler->last_flags = GET_FLAG_TYPE(op & ~SLJIT_REWRITABLE_JUMP) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 39d468a930bb6f372f13b434152c53d1bb89c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 007/117] fix: x86: store the product when the address of src2
 depends on the destination register

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 11beb94..1f00eba 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst != dst_r)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 9c6b02248bd58c0c66b1910d7c977749c56dfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 008/117] fix: x86: load all 256 bits of unaligned memory
 operands in sljit_emit_simd_op2

---
 sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 1f00eba..145ab21 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4919,8 +4919,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
-			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
+		if (reg_size == 5 || use_vex)
+			FAIL_IF(emit_vex_instruction(compiler, mov_op | (reg_size == 5 ? VEX_256 : 0), TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
 
-- 
2.43.0


From b37cce3adee07c2fbe56908deb1d3f622c8d3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 009/117] fix: x86-64: load 64 bit immediates completely in
 sljit_emit_simd_lane_mov

---
 sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 145ab21..a02d3ab 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4326,6 +4326,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From 14c98ba734c67dc664e9ab5174807a15b61c80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 010/117] fix: x86-32: keep the status flags in sljit_emit_op1
 with SLJIT_MOV_U8 when dst and src are the same

---
 sljit_src/sljitNativeX86_common.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index a02d3ab..a22277a 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -1590,13 +1590,6 @@ static sljit_s32 emit_mov_byte(struct sljit_compiler *compiler, sljit_s32 sign,
 			/* Both src and dst are registers. */
 			SLJIT_ASSERT(FAST_IS_REG(dst));
 
-			if (src == dst && !sign) {
-				inst = emit_x86_instruction(compiler, 1 | EX86_BIN_INS, SLJIT_IMM, 0xff, dst, 0);
-				FAIL_IF(!inst);
-				*(inst + 1) |= AND;
-				return SLJIT_SUCCESS;
-			}
-
 			EMIT_MOV(compiler, TMP_REG1, 0, src, 0);
 			src = TMP_REG1;
 			srcw = 0;
-- 
2.43.0


From 6071eff62a6764f1043ec91822e11639035d7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 011/117] fix: x86-32: do not save and reuse a register of the
 src3 address in sljit_emit_shift_into

---
 sljit_src/sljitNativeX86_common.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index a22277a..c22f3c9 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2826,6 +2826,22 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2r(struct sljit_compiler *compil
 	return SLJIT_SUCCESS;
 }
 
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+
+/* Select a register which is not needed for computing src. */
+static sljit_s32 get_unused_reg(sljit_s32 src)
+{
+	if (src != SLJIT_R0 && !ADDRESSING_DEPENDS_ON(src, SLJIT_R0))
+		return SLJIT_R0;
+
+	if (src != SLJIT_R1 && !ADDRESSING_DEPENDS_ON(src, SLJIT_R1))
+		return SLJIT_R1;
+
+	return SLJIT_S0;
+}
+
+#endif /* SLJIT_CONFIG_X86_32 */
+
 SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *compiler, sljit_s32 op,
 	sljit_s32 dst_reg,
 	sljit_s32 src1_reg,
@@ -2896,7 +2912,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 			src1_reg = TMP_REG1;
 			src1w = 0;
 		} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-			restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+			restore_sp4 = get_unused_reg(src3);
 			EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 			EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 			src1_reg = restore_sp4;
@@ -2939,7 +2955,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				src1_reg = TMP_REG1;
 				src1w = 0;
 			} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-				restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+				restore_sp4 = get_unused_reg(src3);
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 				EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 				src1_reg = restore_sp4;
-- 
2.43.0


From 4ec10dff3200f6431ec17b15a35aa2fdf4359eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 012/117] fix: do not assert on a const placed right after a
 removed jump

---
 sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index cf74dd3..288fff2 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -792,7 +792,8 @@ static SLJIT_INLINE sljit_uw sljit_get_next_min(sljit_uw next_label_size,
 {
 	sljit_uw result = next_jump_addr;
 
-	SLJIT_ASSERT(result == SLJIT_MAX_ADDRESS || result != next_const_addr);
+	/* When the size of a jump is reduced to zero, the address of the next const
+	   can be the same as the address of the jump. Jumps are processed first. */
 
 	if (next_const_addr < result)
 		result = next_const_addr;
-- 
2.43.0


From 7453ae1156e23da7902d611c05b5e56c56b46aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 013/117] fix: apply the local offset only once in the generic
 fop2r

---
 sljit_src/sljitLir.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 288fff2..01ebfdc 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3522,8 +3522,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
-	ADJUST_LOCAL_OFFSET(src1, src1w);
-	ADJUST_LOCAL_OFFSET(src2, src2w);
 
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_fop2(compiler, op, dst_freg, 0, src1, src1w, src2, src2w);
-- 
2.43.0


From 5601ec7ea57022d999ded40db78d8542b87ec8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 014/117] fix: do not overwrite the address when ARM64
 get_local_base stores to memory

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 1b2607a..13e325e 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -3573,7 +3573,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_get_local_base(struct sljit_compiler *c
 	}
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
-		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG1);
+		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG2);
 	return SLJIT_SUCCESS;
 }
 
-- 
2.43.0


From 5638b1f7bc4aeb2b0819af4d0e6fe7920df2cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 015/117] fix: load the members of a register pair in the right
 order on ARM64 when the first is the base

---
 sljit_src/sljitNativeARM_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 13e325e..11336d1 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2717,8 +2717,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			inst = SUBI;
 		} else if ((memw & 0x7) == 0 && memw <= 0x7ff0) {
 			if (!(type & SLJIT_MEM_STORE) && (mem & REG_MASK) == REG_PAIR_FIRST(reg)) {
-				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7)));
-				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7));
+				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7)));
+				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7));
 			}
 
 			inst = (type & SLJIT_MEM_STORE) ? STRI : LDRI;
-- 
2.43.0


From b8f2c3c7936e3fdb5162da03ebd2f7efb20037b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 016/117] fix: sign extend 32 bit memory operands of compare
 and select on RISC-V, MIPS and LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 sljit_src/sljitNativeMIPS_common.c  | 4 ++--
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index ac09132..5a75b82 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2876,7 +2876,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	compiler->cache_arg = 0;
 	compiler->cache_argw = 0;
 
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	if (src1 & SLJIT_MEM) {
 		PTR_FAIL_IF(emit_op_mem2(compiler, flags, TMP_REG1, src1, src1w, src2, src2w));
@@ -3113,7 +3113,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins *ptr;
 	sljit_uw size;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index aa0ddd5..cfcb5f2 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3529,7 +3529,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_MIPS_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3849,7 +3849,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_s32 src2_reg)
 {
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 	sljit_ins mov_ins = (type & SLJIT_32) ? ADDU : DADDU;
 #else /* !SLJIT_CONFIG_MIPS_64 */
 	sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 299f24b..ba77e9c 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -3470,7 +3470,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3744,7 +3744,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_ins ins;
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	sljit_ins word = (sljit_ins)(type & SLJIT_32) >> 5;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_64 */
         sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From 0d5c307d81a6173defc4245eab43ad06db574a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 017/117] fix: compute the carry of additions whose first
 operand is the zero register on RISC-V and LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 sljit_src/sljitNativeRISCV_common.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 5a75b82..eaef4d6 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1493,7 +1493,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || GET_FLAG_TYPE(op) == SLJIT_CARRY) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1530,7 +1530,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (GET_FLAG_TYPE(op) == SLJIT_CARRY) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1539,7 +1539,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (GET_FLAG_TYPE(op) != SLJIT_CARRY)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index ba77e9c..0c1926c 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2060,7 +2060,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || GET_FLAG_TYPE(op) == SLJIT_CARRY) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2108,7 +2108,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (GET_FLAG_TYPE(op) == SLJIT_CARRY) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2120,7 +2120,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		else
 			FAIL_IF(push_inst(compiler, ADD | WORD | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (GET_FLAG_TYPE(op) != SLJIT_CARRY)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
-- 
2.43.0


From dfbba98921523af7c4757a745ffcb0e5f0d4d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 018/117] fix: sign extend the result of 32 bit REV on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 0c1926c..e3230f8 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1834,7 +1834,7 @@ static sljit_s32 emit_rev(struct sljit_compiler *compiler, sljit_s32 op, sljit_s
 	FAIL_IF(push_inst(compiler, AND | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 	FAIL_IF(push_inst(compiler, AND | RD(TMP_REG1) | RS1(TMP_REG1) | RS2(OTHER_FLAG)));
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
-	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) == SLJIT_REV_S32 ? WORD_32 : 0) | RD(dst) | RS1(dst) | IMM_I(8)));
+	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) == SLJIT_REV_U32 ? 0 : WORD_32) | RD(dst) | RS1(dst) | IMM_I(8)));
 #else /* !SLJIT_CONFIG_RISCV_64 */
 	FAIL_IF(push_inst(compiler, SLLI | RD(dst) | RS1(dst) | IMM_I(8)));
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From 532218bf75aab438911fa23341cf2d26962b4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 019/117] fix: do not overwrite the base register while
 computing the address of a load on RISC-V, MIPS and LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativeMIPS_common.c  | 5 +++--
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index eaef4d6..493f5f7 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1308,7 +1308,7 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && reg != base)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index cfcb5f2..0a28356 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1516,15 +1516,16 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg_ar, arg, argw))
 		return compiler->error;
 
+	base = arg & REG_MASK;
+
 	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA)) {
-		tmp_ar = reg_ar;
+		tmp_ar = (reg_ar != DR(base)) ? reg_ar : DR(TMP_REG1);
 		delay_slot = reg_ar;
 	}
 	else {
 		tmp_ar = DR(TMP_REG1);
 		delay_slot = MOVABLE_INS;
 	}
-	base = arg & REG_MASK;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index e3230f8..d7a4e49 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1689,7 +1689,7 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && reg != base)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
-- 
2.43.0


From cb3dcccbdf9da4d05237a1282fa75b6acdb4faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 020/117] fix: do not modify the source register of narrow
 stores when RISC-V bit manipulation is available

---
 sljit_src/sljitNativeRISCV_common.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index d7a4e49..06a8928 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1916,11 +1916,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1928,11 +1928,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1940,11 +1940,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
-- 
2.43.0


From 899065b53c18a756aa93c7af425839bd7268d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 021/117] fix: x86-32 tail calls store f32 arguments as f32

---
 sljit_src/sljitNativeX86_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..2bb5dc2 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -848,7 +848,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				break;
 			case SLJIT_ARG_TYPE_F32:
 				offset -= SSIZE_OF(f32);
-				FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+				FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 				float_arg_count--;
 				break;
 			default:
@@ -957,7 +957,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 			break;
 		case SLJIT_ARG_TYPE_F32:
 			offset -= SSIZE_OF(f32);
-			FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+			FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 			float_arg_count--;
 			break;
 		default:
-- 
2.43.0


From c58d788f6f6e12208a76b5e06fb611cc0ce5b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 022/117] fix: x86-32 tail calls reusing the argument area pass
 the third word argument

---
 sljit_src/sljitNativeX86_32.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 2bb5dc2..09a7c16 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -856,8 +856,8 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				case 1:
 					offset -= SSIZE_OF(sw);
 					if (r2_offset != 0) {
-						EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 0);
-						EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
+						EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), 0);
+						EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, TMP_REG1, 0);
 					} else
 						EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R0, 0);
 					break;
@@ -867,11 +867,12 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 					break;
 				case 3:
 					offset -= SSIZE_OF(sw);
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
 					break;
 				case 4:
 					offset -= SSIZE_OF(sw);
-					EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
-					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
+					EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, TMP_REG1, 0);
 					break;
 				}
 				word_arg_count--;
-- 
2.43.0


From f02829931f78240ffee0c5020a11fd09ec92b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 023/117] fix: ARMv6 deserialization restores the constant pool
 from its own data

---
 sljit_src/sljitSerialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..c5b61ec 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -360,6 +360,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler = sljit_create_compiler(allocator_data);
 	PTR_FAIL_IF(compiler == NULL);
 
+	ptr += sizeof(struct sljit_serialized_compiler);
+
 	compiler->label_count = serialized_compiler->label_count;
 	compiler->options = serialized_compiler->options;
 	compiler->scratches = serialized_compiler->scratches;
@@ -404,7 +406,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From 97991dcd68160c160e13346119ee4250052596e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 024/117] fix: serialization keeps the vector register counts
 and the real float register counts

The counts were lost by a serialize / deserialize pair: SIMD instructions after
it were rejected by the argument checks, and on RISC-V a return did not restore
the saved vector registers.
---
 sljit_src/sljitSerialize.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index c5b61ec..7e1b019 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -65,6 +65,10 @@ struct sljit_serialized_compiler {
 	sljit_s32 saveds;
 	sljit_s32 fscratches;
 	sljit_s32 fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	sljit_s32 local_size;
 	sljit_uw size;
 
@@ -97,6 +101,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -124,7 +134,7 @@ struct sljit_serialized_const {
 #else /* !SLJIT_LITTLE_ENDIAN */
 #define SLJIT_SERIALIZE_SIGNATURE 0x544a4c53
 #endif /* SLJIT_LITTLE_ENDIAN */
-#define SLJIT_SERIALIZE_VERSION 1
+#define SLJIT_SERIALIZE_VERSION 2
 
 SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compiler *compiler,
 	sljit_s32 options, sljit_uw *size)
@@ -212,6 +222,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->saveds = compiler->saveds;
 	serialized_compiler->fscratches = compiler->fscratches;
 	serialized_compiler->fsaveds = compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
@@ -309,6 +323,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -368,6 +388,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->saveds = serialized_compiler->saveds;
 	compiler->fscratches = serialized_compiler->fscratches;
 	compiler->fsaveds = serialized_compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
@@ -574,6 +598,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 9b8d0a12a39d90af799960a2f4e334e836d39dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 025/117] fix: deserialization rejects segment sizes and counts
 which do not fit

A damaged buffer could overflow the heap allocated memory fragment (or the
ARMv6 constant pool), and the multiplication of a large jump or constant count
could wrap around and defeat the bounds check.
---
 sljit_src/sljitSerialize.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 7e1b019..7f36a85 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -407,6 +407,9 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	used_size = serialized_compiler->cpool_fill;
+	if (used_size > CPOOL_SIZE)
+		goto error;
+
 	aligned_size = SLJIT_SERIALIZE_ALIGN(used_size * (sizeof(sljit_uw) + 1));
 	compiler->cpool_diff = serialized_compiler->cpool_diff;
 	compiler->cpool_fill = used_size;
@@ -437,6 +440,9 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 			goto error;
 
 		used_size = *(sljit_uw*)ptr;
+		if (used_size > BUF_SIZE - (sljit_uw)SLJIT_OFFSETOF(struct sljit_memory_fragment, memory))
+			goto error;
+
 		aligned_size = SLJIT_SERIALIZE_ALIGN(used_size);
 		ptr += sizeof(sljit_uw);
 
@@ -467,6 +473,11 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	last_label = NULL;
 	label_count = serialized_compiler->label_count;
 	aligned_label_count = serialized_compiler->aligned_label_count;
+	i = (sljit_uw)(end - ptr);
+
+	if (i / sizeof(struct sljit_serialized_label) < label_count || i / sizeof(struct sljit_serialized_aligned_label) < aligned_label_count)
+		goto error;
+
 	i = (label_count * sizeof(struct sljit_serialized_label)) + (aligned_label_count * sizeof(struct sljit_serialized_aligned_label));
 
 	if ((sljit_uw)(end - ptr) < i)
@@ -527,7 +538,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 
 	last_jump = NULL;
 	i = serialized_compiler->jump_count;
-	if ((sljit_uw)(end - ptr) < i * sizeof(struct sljit_serialized_jump))
+	if ((sljit_uw)(end - ptr) / sizeof(struct sljit_serialized_jump) < i)
 		goto error;
 
 	while (i > 0) {
@@ -566,7 +577,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 
 	last_const = NULL;
 	i = serialized_compiler->const_count;
-	if ((sljit_uw)(end - ptr) < i * sizeof(struct sljit_serialized_const))
+	if ((sljit_uw)(end - ptr) / sizeof(struct sljit_serialized_const) < i)
 		goto error;
 
 	while (i > 0) {
-- 
2.43.0


From e3d3adbacf3557a8c5c15fbfcae5b450cb0eb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 026/117] fix: do not read the executable offset of a failed
 allocation

With the protected executable allocator sljit_generate_code crashed instead of
returning NULL when the executable memory could not be allocated.
---
 sljit_src/sljitLir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 01ebfdc..55a6b4e 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -752,7 +752,9 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
-		*executable_offset = SLJIT_EXEC_OFFSET(code);
+		/* The protected allocator reads the offset from the header of the block. */
+		if (SLJIT_LIKELY(code != NULL))
+			*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
 
-- 
2.43.0


From 2ca913f779750ca5ef0a4e374775966b3f1ded2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 027/117] fix: report the size of the generated code in bytes
 on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 06a8928..33edec7 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1039,7 +1039,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 	compiler->error = SLJIT_ERR_COMPILED;
 	compiler->executable_offset = executable_offset;
-	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_ins);
+	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_u16);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
-- 
2.43.0


From 5730c4dadccb97bc4b8c371f0137bb2cae33d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 028/117] fix: ARMv6 code generation failure does not free the
 code buffer of the user

---
 sljit_src/sljitNativeARM_32.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 0be8a26..f49eef7 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -932,7 +932,8 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 					cpool_skip_alignment--;
 				} else {
 					if (SLJIT_UNLIKELY(resolve_const_pool_index(compiler, &first_patch, cpool_current_index, cpool_start_address, buf_ptr))) {
-						SLJIT_FREE_EXEC(code, exec_allocator_data);
+						if (!(options & SLJIT_GENERATE_CODE_BUFFER))
+							SLJIT_FREE_EXEC(code, exec_allocator_data);
 						compiler->error = SLJIT_ERR_ALLOC_FAILED;
 						return NULL;
 					}
@@ -1047,7 +1048,8 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		cpool_current_index = 0;
 		while (buf_ptr < buf_end) {
 			if (SLJIT_UNLIKELY(resolve_const_pool_index(compiler, &first_patch, cpool_current_index, cpool_start_address, buf_ptr))) {
-				SLJIT_FREE_EXEC(code, exec_allocator_data);
+				if (!(options & SLJIT_GENERATE_CODE_BUFFER))
+					SLJIT_FREE_EXEC(code, exec_allocator_data);
 				compiler->error = SLJIT_ERR_ALLOC_FAILED;
 				return NULL;
 			}
-- 
2.43.0


From d7c6c5979a4d8940fde97d31b6faae3752bb9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 029/117] fix: return the error when memory runs out in the
 middle of an instruction

---
 sljit_src/sljitNativeARM_64.c       | 10 +++++-----
 sljit_src/sljitNativeARM_T2_32.c    | 12 ++++++------
 sljit_src/sljitNativeLOONGARCH_64.c |  4 ++--
 sljit_src/sljitNativePPC_common.c   |  2 +-
 sljit_src/sljitNativeRISCV_64.c     |  2 +-
 sljit_src/sljitNativeRISCV_common.c |  2 +-
 sljit_src/sljitNativeS390X.c        | 14 +++++++-------
 sljit_src/sljitNativeX86_32.c       |  1 +
 sljit_src/sljitNativeX86_common.c   |  1 +
 9 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 11336d1..946d792 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1713,7 +1713,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		src = TMP_REG2;
 	}
 
-	emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src);
+	FAIL_IF(emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src));
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
 		return emit_op_mem(compiler, mem_flags | STORE, dst_r, dst, dstw, TMP_REG2);
@@ -1765,7 +1765,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 	else
 		src2w = src2;
 
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src1w, src2w);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src1w, src2w));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem(compiler, mem_flags | STORE, dst_r, dst, dstw, TMP_REG2);
@@ -2048,7 +2048,7 @@ static sljit_s32 sljit_emit_fop1_conv_f64_from_w(struct sljit_compiler *compiler
 	sljit_s32 dst_r = FAST_IS_REG(dst) ? dst : TMP_FREG1;
 
 	if (src & SLJIT_MEM) {
-		emit_op_mem(compiler, (ins & W_OP) ? WORD_SIZE : INT_SIZE, TMP_REG1, src, srcw, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, (ins & W_OP) ? WORD_SIZE : INT_SIZE, TMP_REG1, src, srcw, TMP_REG1));
 		src = TMP_REG1;
 	} else if (src == SLJIT_IMM) {
 		FAIL_IF(load_immediate(compiler, TMP_REG1, srcw));
@@ -2628,7 +2628,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 	}
 
 	FAIL_IF(push_inst(compiler, CSINC | (cc << 12) | RD(TMP_REG2) | RN(TMP_ZERO) | RM(TMP_ZERO)));
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src_r, TMP_REG2);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_r, src_r, TMP_REG2));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem(compiler, mem_flags | STORE, TMP_REG1, dst, dstw, TMP_REG2);
@@ -3376,7 +3376,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 			elem_size = 3;
 
 		FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src2, src2w));
-		push_inst(compiler,  LD1 | (reg_size == 4 ? (1 << 30) : 0) | ((sljit_ins)elem_size << 10) | RN(src2) | VT(TMP_FREG1));
+		FAIL_IF(push_inst(compiler, LD1 | (reg_size == 4 ? (1 << 30) : 0) | ((sljit_ins)elem_size << 10) | RN(src2) | VT(TMP_FREG1)));
 		src2 = TMP_FREG1;
 	}
 
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 1479ace..f311baf 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1360,7 +1360,7 @@ static SLJIT_INLINE sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit
 	if (argw > 0xfff) {
 		imm = get_imm((sljit_uw)(argw & ~0xfff));
 		if (imm != INVALID_IMM) {
-			push_inst32(compiler, ADD_WI | RD4(tmp_reg) | RN4(arg) | imm);
+			FAIL_IF(push_inst32(compiler, ADD_WI | RD4(tmp_reg) | RN4(arg) | imm));
 			arg = tmp_reg;
 			argw = argw & 0xfff;
 		}
@@ -1371,7 +1371,7 @@ static SLJIT_INLINE sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit
 		imm = get_imm(tmp);
 
 		if (imm != INVALID_IMM) {
-			push_inst32(compiler, SUB_WI | RD4(tmp_reg) | RN4(arg) | imm);
+			FAIL_IF(push_inst32(compiler, SUB_WI | RD4(tmp_reg) | RN4(arg) | imm));
 			arg = tmp_reg;
 			argw += (sljit_sw)tmp;
 
@@ -2064,7 +2064,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		src = TMP_REG1;
 	}
 
-	emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src);
+	FAIL_IF(emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src));
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
 		return emit_op_mem(compiler, flags | STORE, dst_r, dst, dstw, TMP_REG1);
@@ -2094,7 +2094,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		flags |= ARG2_IMM;
 	else if (src2 & SLJIT_MEM) {
 		src2_tmp_reg = FAST_IS_REG(src1) ? TMP_REG1 : TMP_REG2;
-		emit_op_mem(compiler, WORD_SIZE, src2_tmp_reg, src2, src2w, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, src2_tmp_reg, src2, src2w, TMP_REG1));
 		src2w = src2_tmp_reg;
 	} else
 		src2w = src2;
@@ -2102,12 +2102,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 	if (src1 == SLJIT_IMM)
 		flags |= ARG1_IMM;
 	else if (src1 & SLJIT_MEM) {
-		emit_op_mem(compiler, WORD_SIZE, TMP_REG1, src1, src1w, TMP_REG1);
+		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, TMP_REG1, src1, src1w, TMP_REG1));
 		src1w = TMP_REG1;
 	} else
 		src1w = src1;
 
-	emit_op_imm(compiler, flags | GET_OPCODE(op), dst_reg, (sljit_uw)src1w, (sljit_uw)src2w);
+	FAIL_IF(emit_op_imm(compiler, flags | GET_OPCODE(op), dst_reg, (sljit_uw)src1w, (sljit_uw)src2w));
 
 	if (!(dst & SLJIT_MEM))
 		return SLJIT_SUCCESS;
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 493f5f7..f24588d 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2151,7 +2151,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		FAIL_IF(emit_op_mem(compiler, inp_flags, TMP_REG2, src3, src3w));
 		src3 = TMP_REG2;
 	} else if (dst_reg == src3) {
-		push_inst(compiler, INST(ADDI, op) | RD(TMP_REG2) | RJ(src3) | IMM_I12(0));
+		FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(TMP_REG2) | RJ(src3) | IMM_I12(0)));
 		src3 = TMP_REG2;
 	}
 
@@ -3434,7 +3434,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 			ins |= (sljit_ins)lane_index << 18 | (sljit_ins)(1 << (23 - elem_size));
 			return push_inst(compiler, VSTELM | ins | FRD(vreg) | RJ(srcdst));
 		} else {
-			emit_op_mem(compiler, (elem_size == 3 ? WORD_DATA : (elem_size == 2 ? INT_DATA : (elem_size == 1 ? HALF_DATA : BYTE_DATA))) | LOAD_DATA, TMP_REG1, srcdst | SLJIT_MEM, 0);
+			FAIL_IF(emit_op_mem(compiler, (elem_size == 3 ? WORD_DATA : (elem_size == 2 ? INT_DATA : (elem_size == 1 ? HALF_DATA : BYTE_DATA))) | LOAD_DATA, TMP_REG1, srcdst | SLJIT_MEM, 0));
 			srcdst = TMP_REG1;
 			ins = (sljit_ins)(0x3f ^ (0x1f >> elem_size)) << 10;
 
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 15e8a5a..334fceb 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1083,7 +1083,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 	}
 
 	if (!is_return_to)
-		push_inst(compiler, MTLR | S(0));
+		FAIL_IF(push_inst(compiler, MTLR | S(0)));
 
 	if (local_size > 0)
 		return push_inst(compiler, ADDI | D(SLJIT_SP) | A(base) | IMM(local_size));
diff --git a/sljit_src/sljitNativeRISCV_64.c b/sljit_src/sljitNativeRISCV_64.c
index 113d1f8..aed568b 100644
--- a/sljit_src/sljitNativeRISCV_64.c
+++ b/sljit_src/sljitNativeRISCV_64.c
@@ -101,7 +101,7 @@ static sljit_s32 load_immediate(struct sljit_compiler *compiler, sljit_s32 dst_r
 	}
 
 	if (high <= 0x7fffffffl && high >= S32_MIN) {
-		load_immediate(compiler, dst_r, high, tmp_r);
+		FAIL_IF(load_immediate(compiler, dst_r, high, tmp_r));
 
 		if (RISCV_HAS_COMPRESSED(200))
 			return push_inst16(compiler, C_SLLI | C_RD(dst_r) | C_IMM_I(shift));
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 33edec7..13bf370 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2832,7 +2832,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		FAIL_IF(emit_op_mem(compiler, inp_flags, TMP_REG2, src3, src3w));
 		src3 = TMP_REG2;
 	} else if (dst_reg == src3) {
-		push_inst(compiler, ADDI | WORD | RD(TMP_REG2) | RS1(src3) | IMM_I(0));
+		FAIL_IF(push_inst(compiler, ADDI | WORD | RD(TMP_REG2) | RS1(src3) | IMM_I(0)));
 		src3 = TMP_REG2;
 	}
 
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index ba38522..de15fd3 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4161,7 +4161,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_replicate(struct sljit_compil
 				| ((sljit_ins)srcw << 16) | ((sljit_ins)elem_size << 12));
 		}
 
-		push_load_imm_inst(compiler, tmp0, srcw);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, srcw));
 		reg = tmp0;
 	} else
 		reg = gpr(src);
@@ -4280,7 +4280,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 		if (ins != 0)
 			return push_inst(compiler, ins | F36(vreg) | ((sljit_ins)srcdstw << 16) | ((sljit_ins)lane_index << 12));
 
-		push_load_imm_inst(compiler, tmp0, srcdstw);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, srcdstw));
 		reg = tmp0;
 	} else
 		reg = gpr(srcdst);
@@ -4417,18 +4417,18 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	switch (elem_size) {
 	case 0:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x4048505860687078);
-		push_load_imm_inst(compiler, tmp1, (sljit_sw)0x0008101820283038);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x4048505860687078));
+		FAIL_IF(push_load_imm_inst(compiler, tmp1, (sljit_sw)0x0008101820283038));
 		FAIL_IF(push_inst(compiler, 0xe70000000062 /* vlvgp */ | F36(TMP_FREG1) | R32A(tmp1) | R28A(tmp0)));
 		break;
 	case 1:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x0010203040506070);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x0010203040506070));
 		break;
 	case 2:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808000204060);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808000204060));
 		break;
 	default:
-		push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808080800040);
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (sljit_sw)0x8080808080800040));
 		break;
 	}
 
diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 09a7c16..dbf94eb 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -1181,6 +1181,7 @@ static SLJIT_INLINE sljit_s32 emit_fmov_before_return(struct sljit_compiler *com
 	}
 
 	inst = emit_x86_instruction(compiler, 1 | EX86_SSE2_OP1, 0, 0, src, srcw);
+	FAIL_IF(!inst);
 	*inst = (op & SLJIT_32) ? FLDS : FLDL;
 
 	return SLJIT_SUCCESS;
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index c22f3c9..c9c86fc 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -3329,6 +3329,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From 996e3507505dc1041dd87da72c1d26f1d0c260ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 030/117] fix: MIPS return reports memory allocation failure

---
 sljit_src/sljitNativeMIPS_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 0a28356..1ad0083 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1292,7 +1292,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_return_void(struct sljit_compiler
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_return_void(compiler));
 
-	emit_stack_frame_release(compiler, 0, &ins);
+	FAIL_IF(emit_stack_frame_release(compiler, 0, &ins));
 
 	FAIL_IF(push_inst(compiler, JR | SA(RETURN_ADDR_REG), UNMOVABLE_INS));
 	return push_inst(compiler, ins, UNMOVABLE_INS);
-- 
2.43.0


From 4d2153f8555179ae9d3b8b39920819dbaa5427a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 031/117] fix: LoongArch reports 256 bit shuffles as
 unsupported when they are only tested

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f24588d..1c734bd 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3692,6 +3692,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (reg_size != 4 && SLJIT_SIMD_GET_OPCODE(type) == SLJIT_SIMD_OP2_SHUFFLE)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3712,9 +3715,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 		ins = VXOR_V;
 		break;
 	case SLJIT_SIMD_OP2_SHUFFLE:
-		if (reg_size != 4)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		return push_inst(compiler, VSHUF_B | FRD(dst_vreg) | FRJ(src1_vreg) | FRK(src1_vreg) | FRA(src2));
 	}
 
-- 
2.43.0


From f3f193fb2ad95bb9c84ed3103172aebf842c9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 032/117] fix: MIPS constants are not moved into delay slots

---
 sljit_src/sljitNativeMIPS_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 1ad0083..1be962f 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -4440,6 +4440,9 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_const* sljit_emit_const(struct sljit_compi
 		break;
 	}
 
+	/* The instructions of a constant must not be moved into a delay slot. */
+	compiler->delay_slot = UNMOVABLE_INS;
+
 	if (dst & SLJIT_MEM)
 		PTR_FAIL_IF(emit_op_mem(compiler, mem_flags, DR(TMP_REG2), dst, dstw));
 
-- 
2.43.0


From 85ee820998a258c2cc49d2cd485a89655cb26913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 033/117] fix: address of the label at the end of the code when
 the executable offset is not zero

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativeMIPS_common.c  | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 1c734bd..ded3930 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 1be962f..816b7c6 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -810,7 +810,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 13bf370..663c403 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -978,7 +978,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
-- 
2.43.0


From 189e3fa85596eda497ed8c4d128fe40de4bebe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 034/117] fix: size of PowerPC calls which pass the entry
 address

---
 sljit_src/sljitNativePPC_common.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 334fceb..e358704 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -552,6 +552,19 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (!(jump->flags & JUMP_MOV_ADDR)) {
 			total_size = JUMP_MAX_SIZE - 1;
 
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+			/* The address must be loaded into TMP_CALL_REG for calls. */
+			if (jump->flags & IS_CALL) {
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+				if ((jump->flags & (SLJIT_REWRITABLE_JUMP | JUMP_ADDR)) == JUMP_ADDR) {
+					if (jump->u.target < 0x80000000l)
+						total_size = 4 - 1;
+					else if (jump->u.target < 0x800000000000l)
+						total_size = 6 - 1;
+				}
+#endif /* SLJIT_CONFIG_PPC_64 */
+			} else
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
 				if (jump->flags & JUMP_ADDR) {
 					if (jump->u.target <= 0x01ffffff)
-- 
2.43.0


From f6d1b1a939e3130212c8e823979b6fbd23ed9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 035/117] fix: x86-64 assertion for addresses between 2 and 4
 gigabytes

---
 sljit_src/sljitNativeX86_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index c9c86fc..02bbaaa 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,8 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			/* The upper 32 bits are cleared by the instruction. */
+			SLJIT_ASSERT(addr <= 0xffffffffl);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 1822f5670691c6331f6df7a1fe769f89d66b3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 036/117] fix: MIPS exclusive or of minus one and another
 constant

---
 sljit_src/sljitNativeMIPS_common.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 816b7c6..7037fd2 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2646,7 +2646,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		return emit_op(compiler, op, flags | CUMULATIVE_OP, dst, dstw, src1, src1w, src2, src2w);
 
 	case SLJIT_XOR:
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if (src1 == SLJIT_IMM && src1w == -1) {
+			src1 = src2;
+			src1w = src2w;
+			src2 = SLJIT_IMM;
+			src2w = -1;
+		}
+
+		if (src2 == SLJIT_IMM && src2w == -1) {
 			return emit_op(compiler, op, flags | CUMULATIVE_OP | IMM_OP, dst, dstw, src1, src1w, src2, src2w);
 		}
 		/* fallthrough */
-- 
2.43.0


From 27e6412f0b5d235d5f4466e7fb972fd721e35d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 037/117] fix: ARMv6 address of constants which are preceded by
 a constant pool

---
 sljit_src/sljitNativeARM_32.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index f49eef7..15a4532 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -4811,6 +4811,11 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_const* sljit_emit_const(struct sljit_compi
 #endif /* SLJIT_CONFIG_ARM_V6 */
 	}
 
+#if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
+	/* A constant pool might be inserted before the instruction. */
+	const_->addr = compiler->size - 1;
+#endif /* SLJIT_CONFIG_ARM_V6 */
+
 	if (dst & SLJIT_MEM)
 		PTR_FAIL_IF(emit_op_mem(compiler, mem_flags, TMP_REG2, dst, dstw, TMP_REG1));
 
-- 
2.43.0


From 2ff16b6011dddf74088359372145a7ab1fe5af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 038/117] fix: ARM32 exclusive or of minus one and another
 constant

---
 sljit_src/sljitNativeARM_32.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 15a4532..a954286 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2526,7 +2526,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 
 	case SLJIT_XOR:
 		inp_flags = ALLOW_IMM | ALLOW_DOUBLE_IMM;
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if (src1 == SLJIT_IMM && src1w == -1) {
+			src1 = src2;
+			src1w = src2w;
+			src2 = SLJIT_IMM;
+			src2w = -1;
+		}
+
+		if (src2 == SLJIT_IMM && src2w == -1) {
 			inp_flags |= ALLOW_INV_IMM;
 		}
 		return emit_op(compiler, op, inp_flags, dst, dstw, src1, src1w, src2, src2w);
-- 
2.43.0


From 5bc8a745fb0f32ba7bf72672ac33a28cdb0bf073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 039/117] fix: ARM Thumb2 size of label addresses near the
 lower end of the ADR range

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index f311baf..7907e91 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -586,7 +586,7 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 			total_size = 3;
 
 			if (!(jump->flags & JUMP_ADDR)) {
-				diff = (sljit_sw)jump->u.label->size - (sljit_sw)jump->addr;
+				diff = (sljit_sw)jump->u.label->size - (sljit_sw)jump->addr - 2;
 				if (jump->u.label->size > jump->addr) {
 					SLJIT_ASSERT(jump->u.label->size - size_reduce >= jump->addr);
 					diff -= (sljit_sw)size_reduce;
-- 
2.43.0


From c15346e42e93e08aaf3ec07186d3713eb0bcd2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 040/117] fix: executable allocators reject sizes which
 overflow

---
 sljit_src/allocator_src/sljitExecAllocatorCore.c    | 3 +++
 sljit_src/allocator_src/sljitWXExecAllocatorPosix.c | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sljit_src/allocator_src/sljitExecAllocatorCore.c b/sljit_src/allocator_src/sljitExecAllocatorCore.c
index 314483c..08bc32d 100644
--- a/sljit_src/allocator_src/sljitExecAllocatorCore.c
+++ b/sljit_src/allocator_src/sljitExecAllocatorCore.c
@@ -163,6 +163,9 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 
 	if (size < (64 - sizeof(struct block_header)))
 		size = (64 - sizeof(struct block_header));
+	/* The size of the chunk must not overflow. */
+	if (size > ~(sljit_uw)0 - CHUNK_SIZE - CHUNK_EXTRA_SIZE - ALIGN_SIZE(0))
+		return NULL;
 	size = ALIGN_SIZE(size);
 
 	SLJIT_ALLOCATOR_LOCK();
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
index 36d3014..dee2368 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
@@ -91,6 +91,10 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	prot |= PROT_MAX(PROT_READ | PROT_WRITE | PROT_EXEC);
 #endif
 
+	/* The size of the map must not overflow. */
+	if (size > ~(sljit_uw)0 - sizeof(sljit_uw))
+		return NULL;
+
 	size += sizeof(sljit_uw);
 	ptr = (sljit_uw*)mmap(NULL, size, prot, MAP_PRIVATE | MAP_ANON, -1, 0);
 
-- 
2.43.0


From a8e0a896c69ceab240c61bba7d3092645d9d4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 041/117] fix: regex_reset_match clears the end state

---
 regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f95469..a771d98 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2416,6 +2416,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is not part of the list above. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From 2cc1679fa484f8296ab2617e7b331078a57ba7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 042/117] fix: non-greedy regex which can be empty and must
 match until the end

---
 regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index a771d98..1c2b7f3 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2251,7 +2251,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From 4fd7db629c4d8c572530ec4d497fad110e4c2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 043/117] fix: regex which must match from the begin to the end
 accepts more characters

---
 regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 1c2b7f3..9daa3e4 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2169,6 +2169,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The end state is active, and the next character (if any) must clear it. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From a151922c6b00df7fa7810b5dfdf4f6efd8c3e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 044/117] fix: regex with top level alternatives between
 newlines

---
 regex_src/regexJIT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 9daa3e4..ee967a4 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -794,6 +794,10 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The newlines above and below must not be part of the first or last alternative. */
+	if (stack_push(stack, type_open_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -914,6 +918,9 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if (stack_push(stack, type_close_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From e06a1ef56410330ef27beacf49f6e86a977dd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 045/117] fix: begin of an empty regex match at the end of the
 string

---
 regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index ee967a4..d726cbf 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -1954,6 +1954,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* The start of the empty match before the end must be always updated. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From 51befdfacdd1d5d90af38c14ccac5cebebd42212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 046/117] fix: prefer the leftmost longest regex match at the
 end of the string

---
 regex_src/regexJIT.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index d726cbf..a834223 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2458,12 +2458,15 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The match which ends at the end of the string is always longer. */
+		if (match->best_begin != -1 && (match->best_begin < match->current[no_states + 2]
+				|| (match->best_begin == match->current[no_states + 2] && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
+
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From 8d835ea53b3ed4ad8c4664efd2f897f01cc01011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 047/117] fix: regex characters above 127 when char is signed

---
 regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index a834223..b6f5321 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -43,6 +43,13 @@
    which ends with [\r\n] character range. */
 #define REGEX_FAKE_MATCH_END	0x400
 
+/* The characters of the input are loaded as unsigned values. */
+#ifdef REGEX_USE_8BIT_CHARS
+typedef unsigned char regex_uchar_t;
+#else
+typedef regex_char_t regex_uchar_t;
+#endif
+
 /* --------------------------------------------------------------------- */
 /*  Structures for JIT-ed pattern matching                               */
 /* --------------------------------------------------------------------- */
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	regex_uchar_t left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = (regex_uchar_t)*regex_string;
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = (regex_uchar_t)*regex_string;
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = (regex_uchar_t)*regex_string;
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = (regex_uchar_t)*regex_string;
 			}
 			regex_string++;
 			length--;
@@ -805,7 +812,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, (regex_uchar_t)*regex_string))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -905,7 +912,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, (regex_uchar_t)*regex_string))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 3ce8aa928f0fbdee63e75d60aa015240f0f40d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 048/117] fix: regex iteration reports memory allocation
 failure

---
 regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index b6f5321..571bcce 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 9207bd7e410c5dcf8569c6ed0b0e08a62fbad3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 049/117] fix: print the alignment of memory accesses to the
 verbose stream

---
 sljit_src/sljitLir.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 55a6b4e..93e3308 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2842,11 +2842,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 				!(type & SLJIT_32) ? "" : "32", op1_types[(type & 0xff) - SLJIT_OP1_BASE]);
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		if (reg & REG_PAIR_MASK) {
 			fprintf(compiler->verbose, " {");
@@ -2939,11 +2939,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem(struct sljit_compile
 			!(type & SLJIT_32) ? "f64" : "f32");
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		fprintf(compiler->verbose, " ");
 		sljit_verbose_freg(compiler, freg);
-- 
2.43.0


From d56c35f4e1851d64a155421d126737850ba148a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 050/117] fix: SLJIT_SIMD_TEST must not emit instructions for
 simd_sign on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 663c403..e583e59 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -4413,6 +4413,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	if (((type & SLJIT_SIMD_FLOAT) && elem_size < 2) || elem_size > 3)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_TEST)
+		return SLJIT_SUCCESS;
+
 	FAIL_IF(sljit_emit_vsetivli(compiler, type, 0));
 	FAIL_IF(push_inst(compiler, VMV_VI | VRD(TMP_VREG1) | (0x0 << 15)));
 	FAIL_IF(push_inst(compiler, VMSLE_VI | VRD(TMP_VREG1) | (0x1f << 15) | VRS2(vreg)));
-- 
2.43.0


From 9ec7f80689bf021955a505d0ebc3b2ff15ac327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 051/117] fix: define sljit_emit_fmem for MIPS release 6

---
 sljit_src/sljitLir.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 93e3308..c961dea 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3705,7 +3705,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem_update(struct sljit_compiler *
 #endif /* !SLJIT_CONFIG_ARM && !SLJIT_CONFIG_PPC */
 
 #if !(defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32) \
-	&& !(defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
+	&& !(defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS \
+		&& !(defined SLJIT_MIPS_REV && SLJIT_MIPS_REV >= 6))
 
 SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compiler, sljit_s32 type,
 	sljit_s32 freg,
@@ -3717,7 +3718,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 	return sljit_emit_fmem_unaligned(compiler, type, freg, mem, memw);
 }
 
-#endif /* !SLJIT_CONFIG_ARM_32 && !SLJIT_CONFIG_MIPS */
+#endif /* !SLJIT_CONFIG_ARM_32 && !(SLJIT_CONFIG_MIPS && SLJIT_MIPS_REV < 6) */
 
 #if !(defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64) \
 	&& !(defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
-- 
2.43.0


From 1b79bca5565ed6ec5474e1645545124a520fe384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 052/117] fix: LoongArch sljit_has_cpu_feature returns 1 for
 available vector extensions

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index ded3930..8635554 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -836,10 +836,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_has_cpu_feature(sljit_s32 feature_type)
 #endif
 
 	case SLJIT_HAS_LASX:
-		return (LOONGARCH_HWCAP_LASX & get_cpu_features(GET_HWCAP));
+		return (LOONGARCH_HWCAP_LASX & get_cpu_features(GET_HWCAP)) != 0;
 
 	case SLJIT_HAS_SIMD:
-		return (LOONGARCH_HWCAP_LSX & get_cpu_features(GET_HWCAP));
+		return (LOONGARCH_HWCAP_LSX & get_cpu_features(GET_HWCAP)) != 0;
 
 	case SLJIT_HAS_CLZ:
 	case SLJIT_HAS_CTZ:
-- 
2.43.0


From d36158905d4b56fbdde33420957d18c9d1064682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 053/117] fix: RISC-V zero register and copy features do not
 depend on the atomic extension

---
 sljit_src/sljitNativeRISCV_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index e583e59..cb0de98 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1065,6 +1065,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_has_cpu_feature(sljit_s32 feature_type)
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	case SLJIT_HAS_COPY_F64:
 #endif /* !SLJIT_CONFIG_RISCV_64 */
+		return 1;
 	case SLJIT_HAS_ATOMIC:
 		return RISCV_HAS_ATOMIC(200) ? 1 : 0;
 	case SLJIT_HAS_MEMORY_BARRIER:
-- 
2.43.0


From 17dc4cf12cb7d6abf850cd9b7b28ab4c9f46b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 054/117] fix: sljit_get_register_index accepts the stack
 pointer register

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index c961dea..aee6ff3 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2031,7 +2031,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_get_register_index(sljit_s32 t
 	SLJIT_UNUSED_ARG(reg);
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	if (type == SLJIT_GP_REGISTER) {
-		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS)
+		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS) || reg == SLJIT_SP
 			|| (reg >= SLJIT_TMP_REGISTER_BASE && reg < (SLJIT_TMP_REGISTER_BASE + SLJIT_NUMBER_OF_TEMPORARY_REGISTERS)));
 	}
 #if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
-- 
2.43.0


From 616653a54c4b32000b7103e1510455fce1cf24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 055/117] fix: LoongArch simd_extend reports unsupported
 element types before emitting code

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 8635554..ed288c8 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3578,6 +3578,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if ((type & SLJIT_SIMD_FLOAT) ? (elem_size != 2 || elem2_size != 3) : elem2_size > 3)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3597,9 +3600,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	}
 
 	if (type & SLJIT_SIMD_FLOAT) {
-		if (elem_size != 2 || elem2_size != 3)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-- 
2.43.0


From ca705d21132b23ca50960de1a60f976ab72dc73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 056/117] fix: LoongArch simd_extend must not change its source
 register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index ed288c8..835e43d 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3603,7 +3603,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
 		}
 
 		return push_inst(compiler, VFCVTL_D_S | ins | FRD(vreg) | FRJ(src));
@@ -3615,8 +3616,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins |= (sljit_ins)1 << 26;
 
 	do {
-		if (reg_size == 5)
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+		if (reg_size == 5) {
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(vreg) | FRJ(src) | IMM_I8(16)));
+			src = vreg;
+		}
 
 		FAIL_IF(push_inst(compiler, ins | ((sljit_ins)1 << (13 + elem_size)) | FRD(vreg) | FRJ(src)));
 		src = vreg;
-- 
2.43.0


From c0a56cc1629bac1d70b1ec58f51bc87cfaf6bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 057/117] fix: LoongArch simd_lane_replicate does not support
 large elements

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 835e43d..6fecab6 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3539,6 +3539,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_replicate(struct sljit_c
 	if (reg_size != 5 && reg_size != 4)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (elem_size > 3)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
-- 
2.43.0


From 6581851f173a4cde799d7459257c14408e5c4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 058/117] fix: LoongArch sljit_emit_fselect tests the whole
 flag register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 6fecab6..cbc42a9 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3173,11 +3173,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fselect(struct sljit_compiler *com
 	if ((type & ~SLJIT_32) == SLJIT_EQUAL || (type & ~SLJIT_32) == SLJIT_NOT_EQUAL) {
 		if ((type & ~SLJIT_32) == SLJIT_EQUAL)
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(EQUAL_FLAG)));
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(EQUAL_FLAG)));
+		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(TMP_REG1)));
 	} else {
 		if (get_jump_instruction(type & ~SLJIT_32) == (BNE | RJ(OTHER_FLAG) | RD(TMP_ZERO)))
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(TMP_REG1)));
 	}
 
 	if (src1 & SLJIT_MEM) {
-- 
2.43.0


From de7a0166eae1f791b612cb1c3fbad1ba989cd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 059/117] fix: LoongArch sljit_emit_cmp keeps its first operand
 when both are in memory

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index cbc42a9..2da9609 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2884,7 +2884,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	}
 
 	if (src2 & SLJIT_MEM) {
-		PTR_FAIL_IF(emit_op_mem2(compiler, flags, src2_tmp_reg, src2, src2w, 0, 0));
+		PTR_FAIL_IF(emit_op_mem2(compiler, flags | (src1 == TMP_REG1 ? MEM_USE_TMP2 : 0), src2_tmp_reg, src2, src2w, 0, 0));
 		src2 = src2_tmp_reg;
 	}
 
-- 
2.43.0


From 8dd93cb7d711b28f36fd5fad1c8f5f6302b2e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 060/117] fix: LoongArch conversion from unsigned 32 bit
 integers

---
 sljit_src/sljitNativeLOONGARCH_64.c | 32 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 2da9609..70fa75a 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2396,7 +2396,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
 		break;
 	case SLJIT_CONV_F64_FROM_U32:
-		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_W : FFINT_D_W);
+		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
 		break;
 	default:
 		inst = BREAK;
@@ -2414,21 +2414,25 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		src = TMP_REG1;
 	}
 
-	if (!word_data)
-		FAIL_IF(push_inst(compiler, SRLI_W | RD(src) | RJ(src) | IMM_I12(0)));
+	if (word_data) {
+		FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
 
-	FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
-
-	FAIL_IF(push_inst(compiler, (word_data ? MOVGR2FR_D : MOVGR2FR_W) | FRD(dst_r) | RJ(src)));
-	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
-	FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(src)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+		FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
 
-	FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, (word_data ? SRLI_D : SRLI_W) | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
-	FAIL_IF(push_inst(compiler, INST(MOVGR2FR, (!word_data)) | FRD(dst_r) | RJ(TMP_REG1)));
-	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
-	FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
+		FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
+		FAIL_IF(push_inst(compiler, SRLI_D | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
+		FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+		FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
+	} else {
+		/* A zero extended 32 bit value is never negative. */
+		FAIL_IF(push_inst(compiler, BSTRPICK_D | RD(TMP_REG1) | RJ(src) | (31 << 16)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+	}
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem2(compiler, FLOAT_DATA(op), TMP_FREG1, dst, dstw, 0, 0);
-- 
2.43.0


From ca265a68da83aed149aa89a05424fcb7969436ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 061/117] fix: LoongArch SLJIT_ADDC computes 32 bit results
 with 32 bit instructions

---
 sljit_src/sljitNativeLOONGARCH_64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 70fa75a..c79fb12 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1513,7 +1513,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
 
 		if (flags & SRC2_IMM) {
-			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
 			if (carry_src_r != 0) {
 				if (src1 != dst)
@@ -1521,12 +1521,12 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				else if (src2 != dst)
 					carry_src_r = (sljit_s32)src2;
 				else {
-					FAIL_IF(push_inst(compiler, ADDI_D | RD(EQUAL_FLAG) | RJ(src1) | IMM_I12(0)));
+					FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(EQUAL_FLAG) | RJ(src1) | IMM_I12(0)));
 					carry_src_r = EQUAL_FLAG;
 				}
 			}
 
-			FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(src1) | RK(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(src1) | RK(src2)));
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
@@ -1537,7 +1537,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, SLTU | RD(EQUAL_FLAG) | RJ(dst) | RK(carry_src_r)));
 		}
 
-		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
 		if (GET_FLAG_TYPE(op) != SLJIT_CARRY)
 			return SLJIT_SUCCESS;
-- 
2.43.0


From 016f66d6682da166dabb0fcbc031d4d97916d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 062/117] fix: LoongArch simd_sign must not sign extend the 32
 bit mask of 256 bit vectors

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index c79fb12..2e3f252 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3674,7 +3674,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	if (reg_size == 5) {
 		FAIL_IF(push_inst(compiler, VPICKVE2GR_U | (sljit_ins)(0x38 << 10) | ins | RD(TMP_REG3) | FRJ(TMP_FREG1) | IMM_V(2)));
-		FAIL_IF(push_inst(compiler, SLLI_W | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
+		FAIL_IF(push_inst(compiler, ((type & SLJIT_32) ? SLLI_W : SLLI_D) | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
 		FAIL_IF(push_inst(compiler, OR | RD(dst_r) | RJ(dst_r) | RK(TMP_REG3)));
 	}
 
-- 
2.43.0


From 9e1683f81ef9b20a2f155e5844f722309c83d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 063/117] fix: LoongArch sign extends the result of conversions
 to 32 bit integers

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 2e3f252..af703be 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2327,7 +2327,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_sw_from_f64(struct sljit_comp
 	}
 
 	FAIL_IF(push_inst(compiler, inst | FRD(TMP_FREG1) | FRJ(src)));
-	FAIL_IF(push_inst(compiler, FINST(MOVFR2GR, word_data) | RD(dst_r) | FRJ(TMP_FREG1)));
+	FAIL_IF(push_inst(compiler, (word_data ? MOVFR2GR_D : MOVFR2GR_S) | RD(dst_r) | FRJ(TMP_FREG1)));
 
 	if (dst & SLJIT_MEM)
 		return emit_op_mem2(compiler, word_data ? WORD_DATA : INT_DATA, TMP_REG2, dst, dstw, 0, 0);
-- 
2.43.0


From e4b65b34d13476762fe696bf6361b23f2bf5b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 064/117] fix: LoongArch 32 bit SLJIT_REV sign extends its
 result

---
 sljit_src/sljitNativeLOONGARCH_64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index af703be..0f55af3 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1429,7 +1429,10 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 	case SLJIT_REV:
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
-		return push_inst(compiler, ((op & SLJIT_32) ? REVB_2W : REVB_D) | RD(dst) | RJ(src2));
+		if (!(op & SLJIT_32))
+			return push_inst(compiler, REVB_D | RD(dst) | RJ(src2));
+		FAIL_IF(push_inst(compiler, REVB_2W | RD(dst) | RJ(src2)));
+		return push_inst(compiler, SLLI_W | RD(dst) | RJ(dst) | IMM_I12(0));
 
 	case SLJIT_REV_S16:
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
-- 
2.43.0


From 78fa5f19751c68f190af85c2231fe8f67bb6d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 065/117] fix: LoongArch sljit_emit_fop2r must not use stale
 cached addresses

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 0f55af3..101c6ba 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2621,6 +2621,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 	ADJUST_LOCAL_OFFSET(src1, src1w);
 	ADJUST_LOCAL_OFFSET(src2, src2w);
 
+	compiler->cache_arg = 0;
+	compiler->cache_argw = 0;
+
 	if (src2 & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem2(compiler, FLOAT_DATA(op) | LOAD_DATA, TMP_FREG1, src2, src2w, 0, 0));
 		src2 = TMP_FREG1;
-- 
2.43.0


From c4ebfa0e85a6cbf04afb842461582c20cd122159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 066/117] fix: LoongArch 32 bit SLJIT_MULADD uses a 32 bit
 addition

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 101c6ba..2f50509 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2095,7 +2095,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2r(struct sljit_compiler *compil
 	case SLJIT_MULADD:
 		SLJIT_SKIP_CHECKS(compiler);
 		FAIL_IF(sljit_emit_op2(compiler, SLJIT_MUL | (op & SLJIT_32), TMP_REG2, 0, src1, src1w, src2, src2w));
-		return push_inst(compiler, ADD_D | RD(dst_reg) | RJ(dst_reg) | RK(TMP_REG2));
+		return push_inst(compiler, INST(ADD, op) | RD(dst_reg) | RJ(dst_reg) | RK(TMP_REG2));
 	}
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 003ab902e84b044355af4ab89122509719b0197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 067/117] fix: support SLJIT_ATOMIC_STORED in select on MIPS

---
 sljit_src/sljitNativeMIPS_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 7037fd2..7e605da 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3813,6 +3813,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_GREATER:
 	case SLJIT_OVERFLOW:
 	case SLJIT_CARRY:
+	case SLJIT_ATOMIC_STORED:
 		return (is_float ? MOVN_S : MOVN) | TA(OTHER_FLAG);
 	case SLJIT_GREATER_EQUAL:
 	case SLJIT_LESS_EQUAL:
@@ -3820,6 +3821,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_LESS_EQUAL:
 	case SLJIT_NOT_OVERFLOW:
 	case SLJIT_NOT_CARRY:
+	case SLJIT_ATOMIC_NOT_STORED:
 		return (is_float ? MOVZ_S : MOVZ) | TA(OTHER_FLAG);
 	case SLJIT_F_EQUAL:
 	case SLJIT_F_LESS:
-- 
2.43.0


From 332e0c31b7f44e7ec9ca58abb4715bb84ce7e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 068/117] fix: do not overwrite the temporary register of
 atomic store on x86-32

---
 sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 02bbaaa..2e29f36 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5063,8 +5063,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 		if (src_reg == TMP_REG1) {
 			if (mem_reg == SLJIT_R0) {
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R1, 0);
-				EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
-				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
+				if (temp_reg == SLJIT_R1) {
+					FAIL_IF(emit_byte(compiler, XCHG_EAX_r | reg_map[SLJIT_R1]));
+				} else {
+					EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
+					EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
+				}
 
 				mem_reg = SLJIT_R1;
 				saved_reg = SLJIT_R1;
-- 
2.43.0


From ecffab94a207819fd0d6402979c14c5b7e10f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 069/117] fix: invalidate the cached address on LoongArch when
 an index is shifted

---
 sljit_src/sljitNativeLOONGARCH_64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 2f50509..6c5d80c 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1258,8 +1258,11 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
 
-		if (SLJIT_UNLIKELY(argw))
+		if (SLJIT_UNLIKELY(argw)) {
+			/* The cached address is overwritten. */
+			compiler->cache_arg = 0;
 			FAIL_IF(push_inst(compiler, SLLI_D | RD(TMP_REG3) | RJ(OFFS_REG(arg)) | IMM_I12(argw)));
+		}
 		return push_mem_inst(compiler, flags, reg, SLJIT_MEM2(base, TMP_REG3), 0);
 	}
 
-- 
2.43.0


From 19cbc5b658ff781d33f9cb82b384e94cb22e6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 070/117] fix: sign extend 32 bit lanes stored into 32 bit
 registers on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 6c5d80c..0452f03 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3490,6 +3490,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (type & SLJIT_SIMD_STORE) {
+		/* The result of 32 bit operations must be sign extended. */
+		if ((type & SLJIT_32) && elem_size == 2)
+			type |= SLJIT_SIMD_LANE_SIGNED;
+
 		ins = (sljit_ins)(0x3f ^ (0x1f >> elem_size)) << 10;
 
 		if (type & SLJIT_SIMD_LANE_SIGNED)
-- 
2.43.0


From 6782b319d9463c338fa45a6ad8705305a879290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 071/117] fix: reject integer flags in the argument check of
 float compare

Every non-zero variable flag was accepted, because the first half of
the condition made the range check ineffective.
---
 sljit_src/sljitLir.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index aee6ff3..b2e577a 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2136,8 +2136,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_cmp(struct sljit_com
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_CMP_F64);
 	CHECK_ARGUMENT(!(op & SLJIT_SET_Z));
-	CHECK_ARGUMENT((op & VARIABLE_FLAG_MASK)
-		|| (GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL));
+	CHECK_ARGUMENT(GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL);
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From 914687b78460913a9987cfb3879f7871d540442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 072/117] fix: check the documented register restrictions of
 mem_update and fmem_update

The data register was never checked, and neither absolute addresses
(fmem_update) nor SLJIT_SP as base register were rejected.
---
 sljit_src/sljitLir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index b2e577a..83038e9 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2877,7 +2877,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem_update(struct sljit_c
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT((type & 0xff) >= SLJIT_MOV && (type & 0xff) <= SLJIT_MOV_P);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
-	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != reg);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP && (mem & REG_MASK) != reg);
+	CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(reg));
 
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -2962,6 +2963,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem_update(struct sljit_
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV_F64);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP);
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(freg, type & SLJIT_32));
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From cbae85c93f48f4dd78f297524d045234bdf6dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 073/117] fix: operator precedence in the alignment checks of
 simd_mov and simd_op2

The comparison was evaluated before the conditional operator, so any
alignment was accepted.
---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 83038e9..35b2e1e 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2999,7 +2999,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_mov(struct sljit_com
 	CHECK_ARGUMENT((type & SLJIT_SIMD_TYPE_MASK2(SLJIT_SIMD_STORE)) == 0);
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(vreg, type));
 	FUNCTION_VCHECK(srcdst, srcdstw, type);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -3252,7 +3252,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_op2(struct sljit_com
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_OPCODE(type) != SLJIT_SIMD_OP2_SHUFFLE || (SLJIT_SIMD_GET_ELEM_SIZE(type) == 0 && !(type & SLJIT_SIMD_FLOAT)));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(dst_vreg, type));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(src1_vreg, type));
 	FUNCTION_VCHECK(src2, src2w, type);
-- 
2.43.0


From 798791dede13fe4acbb8310863e453497c24af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 074/117] fix: reject status flags in the argument check of
 fop2r

---
 sljit_src/sljitLir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 35b2e1e..df2d88b 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2254,6 +2254,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop2r(struct sljit_compil
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_COPYSIGN_F64);
+	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(dst_freg, op & SLJIT_32));
-- 
2.43.0


From 8c36eaf9c9bfb841b6e0cd4f32ddaeb0e7966156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 075/117] fix: compare the number of kept registers with the
 number of saved registers

The saveds argument also contains the number of saved float and vector
registers, so too many kept registers were accepted when those are used.
---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index df2d88b..0f4caed 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1433,7 +1433,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_enter(struct sljit_compil
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
@@ -1510,7 +1510,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
-- 
2.43.0


From abd3960a659c98613b9428665d69b802748e7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 076/117] fix: reject zero flag for ADDC and SUBC in the
 argument checks

Only the carry flag is supported by these operations.
---
 sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 0f4caed..60a3167 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1862,7 +1862,8 @@ static sljit_s32 check_sljit_emit_op2_operation(struct sljit_compiler *compiler,
 			|| GET_FLAG_TYPE(op) == GET_FLAG_TYPE(SLJIT_SET_CARRY);
 	case SLJIT_ADDC:
 	case SLJIT_SUBC:
-		return (!(op & VARIABLE_FLAG_MASK) || GET_FLAG_TYPE(op) == GET_FLAG_TYPE(SLJIT_SET_CARRY))
+		return !(op & SLJIT_SET_Z)
+			&& (!(op & VARIABLE_FLAG_MASK) || GET_FLAG_TYPE(op) == GET_FLAG_TYPE(SLJIT_SET_CARRY))
 			&& (compiler->last_flags & 0xff) == GET_FLAG_TYPE(SLJIT_SET_CARRY)
 			&& (op & SLJIT_32) == (compiler->last_flags & SLJIT_32);
 		break;
-- 
2.43.0


From c0509a3b22678fa39e1303c45acd541cdbff6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 077/117] fix: calls destroy the status flags in the argument
 checks

The documentation of sljit_emit_call and sljit_emit_icall says that all
flags are destroyed, yet using them after a call was accepted.
---
 sljit_src/sljitLir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 60a3167..d647775 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2489,6 +2489,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_call(struct sljit_compile
 			CHECK_ARGUMENT((type & 0xff) != SLJIT_CALL_REG_ARG);
 		}
 	}
+
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2642,6 +2644,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_icall(struct sljit_compil
 			CHECK_ARGUMENT((type & 0xff) != SLJIT_CALL_REG_ARG);
 		}
 	}
+
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From a11761018286fa574eb12080863a1453d3bbd555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 078/117] fix: do not store past the end of the code when an
 address load is shortened on x86-64

---
 sljit_src/sljitNativeX86_64.c     | 23 ++++++++++++-----------
 sljit_src/sljitNativeX86_common.c |  9 ++++++++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 8737d68..0bb4c72 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -407,29 +407,30 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 	else
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
+	/* Only the first two bytes of the mov instruction are stored by the
+	   caller. The immediate value is stored after the code is generated,
+	   because the shorter forms may end before a 64 bit immediate value. */
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr + sizeof(sljit_sw), executable_offset);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-			code_ptr -= SSIZE_OF(s32) - 1;
+			SLJIT_ASSERT((code_ptr[-2] & 0xf8) == REX_W);
+			SLJIT_ASSERT((code_ptr[-1] & 0xf8) == MOV_r_i32);
 
-			SLJIT_ASSERT((code_ptr[-3 - SSIZE_OF(s32)] & 0xf8) == REX_W);
-			SLJIT_ASSERT((code_ptr[-2 - SSIZE_OF(s32)] & 0xf8) == MOV_r_i32);
-
-			code_ptr[-3 - SSIZE_OF(s32)] = U8(REX_W | ((code_ptr[-3 - SSIZE_OF(s32)] & 0x1) << 2));
-			code_ptr[-1 - SSIZE_OF(s32)] = U8(((code_ptr[-2 - SSIZE_OF(s32)] & 0x7) << 3) | 0x5);
-			code_ptr[-2 - SSIZE_OF(s32)] = LEA_r_m;
+			code_ptr[-2] = U8(REX_W | ((code_ptr[-2] & 0x1) << 2));
+			code_ptr[0] = U8(((code_ptr[-1] & 0x7) << 3) | 0x5);
+			code_ptr[-1] = LEA_r_m;
 
 			jump->flags |= PATCH_MW;
-			return code_ptr;
+			return code_ptr + 1 + sizeof(sljit_s32);
 		}
 
 		jump->flags |= PATCH_MD;
-		return code_ptr;
+		return code_ptr + sizeof(sljit_sw);
 	}
 
-	code_ptr -= 2 + sizeof(sljit_uw);
+	code_ptr -= 2;
 
 	SLJIT_ASSERT((code_ptr[0] & 0xf8) == REX_W);
 	SLJIT_ASSERT((code_ptr[1] & 0xf8) == MOV_r_i32);
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 2e29f36..fd4330f 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5274,7 +5274,14 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 	else
 		reg = (op != SLJIT_ADD_ABS_ADDR) ? dst : TMP_REG2;
 
-	PTR_FAIL_IF(emit_load_imm64(compiler, reg, 0));
+	/* The immediate value is not stored in the buffer. */
+	inst = (sljit_u8*)ensure_buf(compiler, 1 + 2);
+	PTR_FAIL_IF(!inst);
+	INC_SIZE(2);
+	inst[0] = REX_W | ((reg_map[reg] <= 7) ? 0 : REX_B);
+	inst[1] = U8(MOV_r_i32 | reg_lmap[reg]);
+
+	compiler->size += sizeof(sljit_sw);
 	jump->addr = compiler->size;
 
 	if (reg_map[reg] >= 8)
-- 
2.43.0


From 07d629050895d95cc34ba1e43a2e7657dcf2c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 079/117] fix: consider the executable offset when the J
 instructions are selected on MIPS

---
 sljit_src/sljitNativeMIPS_common.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 7e605da..decaea3 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -503,6 +503,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 {
 	sljit_sw diff;
 	sljit_uw target_addr;
+	sljit_uw jump_addr;
 	sljit_ins *inst;
 	sljit_ins saved_inst;
 
@@ -566,8 +567,11 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 		}
 	}
 
+	/* The upper bits of the target are provided by the executable address of the jump. */
+	jump_addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(jump->addr, executable_offset);
+
 	if (jump->flags & IS_COND) {
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			saved_inst = inst[0];
 			inst[0] = inst[-1];
@@ -576,7 +580,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			inst[2] = NOP;
 			return inst + 2;
 		}
-		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (inst[0] & 0xffff0000) | 3;
 			inst[1] = NOP;
@@ -588,7 +592,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	}
 	else {
 		/* J instuctions. */
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == (jump->addr & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == (jump_addr & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = inst[-1];
 			inst[-1] = (jump->flags & IS_JAL) ? JAL : J;
@@ -596,7 +600,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			return inst;
 		}
 
-		if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (jump->flags & IS_JAL) ? JAL : J;
 			/* Keep inst[1] */
-- 
2.43.0


From afeba3edbcd4f70c74ddb3b5f9b312cf5a738719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 080/117] fix: do not use arguments before they are checked on
 s390x and MIPS-32

---
 sljit_src/sljitNativeMIPS_32.c |  3 ++-
 sljit_src/sljitNativeS390X.c   | 28 +++++++++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index 8397961..e4b96d5 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -133,13 +133,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 	sljit_s32 freg, sljit_s32 reg)
 {
 	sljit_s32 reg2 = 0;
-	sljit_ins inst = FS(freg);
+	sljit_ins inst;
 	sljit_ins mthc = MTC1, mfhc = MFC1;
 	int is_32 = (op & SLJIT_32);
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fcopy(compiler, op, freg, reg));
 
+	inst = FS(freg);
 	op = GET_OPCODE(op);
 	if (reg & REG_PAIR_MASK) {
 		reg2 = REG_PAIR_SECOND(reg);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index de15fd3..7f30052 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3038,15 +3038,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 {
 	sljit_s32 is_right;
 	sljit_sw bit_length = (op & SLJIT_32) ? 32 : 64;
-	sljit_gpr dst_r = gpr(dst_reg);
-	sljit_gpr src1_r = gpr(src1_reg);
-	sljit_gpr src2_r = gpr(src2_reg);
+	sljit_gpr dst_r, src1_r, src2_r;
 	sljit_gpr src3_r = tmp1;
 	sljit_ins ins;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_shift_into(compiler, op, dst_reg, src1_reg, src2_reg, src3, src3w));
 
+	dst_r = gpr(dst_reg);
+	src1_r = gpr(src1_reg);
+	src2_r = gpr(src2_reg);
+
 	is_right = (GET_OPCODE(op) == SLJIT_LSHR || GET_OPCODE(op) == SLJIT_MLSHR);
 
 	if (src1_reg == src2_reg) {
@@ -3729,11 +3731,13 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_ijump(struct sljit_compiler *compiler, sljit_s32 type, sljit_s32 src, sljit_sw srcw)
 {
 	struct sljit_jump *jump;
-	sljit_gpr src_r = FAST_IS_REG(src) ? gpr(src) : tmp1;
+	sljit_gpr src_r;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_ijump(compiler, type, src, srcw));
 
+	src_r = FAST_IS_REG(src) ? gpr(src) : tmp1;
+
 	if (src != SLJIT_IMM) {
 		if (src & SLJIT_MEM) {
 			ADJUST_LOCAL_OFFSET(src, srcw);
@@ -3797,13 +3801,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 type)
 {
-	sljit_gpr dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
+	sljit_gpr dst_r;
 	sljit_gpr loc_r = tmp1;
-	sljit_u8 mask = get_cc(compiler, type);
+	sljit_u8 mask;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
 
+	dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
+	mask = get_cc(compiler, type);
+
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
 	case SLJIT_OR:
@@ -3871,13 +3878,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins mask;
 	sljit_gpr src_r;
-	sljit_gpr dst_r = gpr(dst_reg);
+	sljit_gpr dst_r;
 	sljit_ins ins;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
 
 	ADJUST_LOCAL_OFFSET(src1, src1w);
+	dst_r = gpr(dst_reg);
 
 	if (dst_reg != src2_reg) {
 		if (src1 == dst_reg) {
@@ -4535,12 +4543,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 	sljit_s32 temp_reg)
 {
 	sljit_ins ins;
-	sljit_gpr tmp_r = gpr(temp_reg);
-	sljit_gpr mem_r = gpr(mem_reg);
+	sljit_gpr tmp_r, mem_r;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_atomic_store(compiler, op, src_reg, mem_reg, temp_reg));
 
+	tmp_r = gpr(temp_reg);
+	mem_r = gpr(mem_reg);
+
 	if (op & SLJIT_ATOMIC_USE_LS)
 		return SLJIT_ERR_UNSUPPORTED;
 
-- 
2.43.0


From 5723e90b8d07c603c881ea3e0d0d4b191f416d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 081/117] fix: support immediate source of count zeroes and
 reverse bytes operations on all targets

---
 sljit_src/sljitNativeARM_64.c     | 6 ++++++
 sljit_src/sljitNativeARM_T2_32.c  | 3 +++
 sljit_src/sljitNativePPC_common.c | 6 ++++++
 sljit_src/sljitNativeS390X.c      | 6 +++++-
 sljit_src/sljitNativeX86_common.c | 6 ++++++
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 946d792..1e4ff57 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1711,6 +1711,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 	if (src & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem(compiler, mem_flags, TMP_REG2, src, srcw, TMP_REG2));
 		src = TMP_REG2;
+	} else if (src == SLJIT_IMM) {
+		/* The same form as a half word loaded from the memory. */
+		if (mem_flags == HALF_SIZE)
+			srcw = (sljit_u16)srcw;
+		FAIL_IF(load_immediate(compiler, TMP_REG2, srcw));
+		src = TMP_REG2;
 	}
 
 	FAIL_IF(emit_op_imm(compiler, flags | op, dst_r, TMP_REG1, src));
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 7907e91..d3e4d08 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2062,6 +2062,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 	if (src & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem(compiler, flags, TMP_REG1, src, srcw, TMP_REG1));
 		src = TMP_REG1;
+	} else if (src == SLJIT_IMM) {
+		FAIL_IF(load_immediate(compiler, TMP_REG1, (sljit_uw)srcw));
+		src = TMP_REG1;
 	}
 
 	FAIL_IF(emit_op_imm(compiler, op, dst_r, TMP_REG2, (sljit_uw)src));
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e358704..b3ec95c 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1487,6 +1487,12 @@ static sljit_s32 emit_rev(struct sljit_compiler *compiler, sljit_s32 op,
 	op = GET_OPCODE(op);
 #endif /* SLJIT_CONFIG_PPC_64 */
 
+	if (src == SLJIT_IMM) {
+		src = (dst & SLJIT_MEM) ? TMP_REG1 : dst;
+		FAIL_IF(load_immediate(compiler, src, srcw));
+		srcw = 0;
+	}
+
 	if (!((dst | src) & SLJIT_MEM)) {
 		/* Both are registers. */
 		if (op == SLJIT_REV_U16 || op == SLJIT_REV_S16) {
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 7f30052..3e6d4fd 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2345,7 +2345,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		SLJIT_UNREACHABLE();
 	}
 
-	SLJIT_ASSERT(src != SLJIT_IMM);
+	if (src == SLJIT_IMM) {
+		FAIL_IF(push_load_imm_inst(compiler, tmp0, (op & SLJIT_32) ? (sljit_sw)(sljit_u32)srcw : srcw));
+		src = TMP_REG1;
+		srcw = 0;
+	}
 
 	dst_r = FAST_IS_REG(dst) ? gpr(dst) : tmp0;
 	src_r = FAST_IS_REG(src) ? gpr(src) : tmp0;
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index fd4330f..bd0a746 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2005,6 +2005,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 		return SLJIT_SUCCESS;
 	}
 
+	if (src == SLJIT_IMM) {
+		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcw);
+		src = TMP_REG1;
+		srcw = 0;
+	}
+
 	switch (op) {
 	case SLJIT_CLZ:
 	case SLJIT_CTZ:
-- 
2.43.0


From b59fa05f5958966b58053628ac96261385acd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 082/117] fix: ARM32: immediates of ADDC and SUBC negated with
 the wrong constant

When an immediate operand of SLJIT_ADDC or SLJIT_SUBC is not encodable,
the opposite operation is used with the changed immediate. The opposite
of ADC with imm is SBC with ~imm, but -imm was used when the immediate
is the first operand or when it is split into two instructions, so the
result was off by one.
---
 sljit_src/sljitNativeARM_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index a954286..f01c1b9 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2236,7 +2236,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 				/* Note: additive operation (commutative). */
 				SLJIT_ASSERT(op == SLJIT_ADD || op == SLJIT_ADDC);
 
-				src2_reg = (sljit_s32)get_imm((sljit_uw)-src1w);
+				src2_reg = (sljit_s32)get_imm((neg_op == SLJIT_SUB) ? (sljit_uw)-src1w : ~(sljit_uw)src1w);
 				if (src2_reg) {
 					src1 = src2;
 					src1w = src2w;
@@ -2307,7 +2307,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 			src2_reg = (sljit_s32)compute_imm((sljit_uw)src2w, &imm2);
 
 			if (src2_reg == 0 && neg_op != 0) {
-				src2_reg = (sljit_s32)compute_imm((sljit_uw)-src2w, &imm2);
+				src2_reg = (sljit_s32)compute_imm((neg_op == SLJIT_ADD || neg_op == SLJIT_SUB) ? (sljit_uw)-src2w : ~(sljit_uw)src2w, &imm2);
 				if (src2_reg != 0)
 					op = neg_op;
 			}
-- 
2.43.0


From 0b898b9bfc8386d61217d4cf72d9c8830192c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 083/117] fix: Thumb2: invalid immediates in the address
 computation of unaligned accesses

get_imm returns INVALID_IMM when the immediate cannot be encoded, but
update_mem_addr compared its result with zero, and emitted undefined
instructions for large offsets.
---
 sljit_src/sljitNativeARM_T2_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index d3e4d08..01b4e82 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3600,21 +3600,21 @@ static sljit_s32 update_mem_addr(struct sljit_compiler *compiler, sljit_s32 *mem
 		if (argw < 0) {
 			imm = get_imm((sljit_uw)(-argw & ~0xff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = -(-argw & 0xff);
 				return push_inst32(compiler, SUB_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else if ((argw & 0xfff) <= max_offset) {
 			imm = get_imm((sljit_uw)(argw & ~0xfff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = argw & 0xfff;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else {
 			imm = get_imm((sljit_uw)((argw | 0xfff) + 1));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = (argw & 0xfff) - 0x1000;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
-- 
2.43.0


From 6ae377a90ec2bb8ba27820c47e285fc0226ff6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 084/117] fix: Thumb2: f32 arguments of calls moved into the
 wrong half of the register

With the hard float ABI, the first f32 argument of a register pair must
be moved into the even numbered single precision register, but it was
moved into the odd numbered one when it changed its register.
---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 01b4e82..18fee0f 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2995,7 +2995,7 @@ static sljit_s32 hardfloat_call_with_args(struct sljit_compiler *compiler, sljit
 				f32_offset = 0;
 			} else {
 				if (offset != new_offset)
-					FAIL_IF(push_inst32(compiler, VMOV_F32 | 0x400000 | VD4(new_offset) | VM4(offset)));
+					FAIL_IF(push_inst32(compiler, VMOV_F32 | VD4(new_offset) | VM4(offset)));
 				f32_offset = new_offset;
 				new_offset++;
 			}
-- 
2.43.0


From dd23405834e381e963e1ef2ae39bbdddce1eebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 085/117] fix: ARM-32 and Thumb-2 return skips the wrong
 alignment word when saved registers are kept

---
 sljit_src/sljitNativeARM_32.c    | 2 +-
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index f01c1b9..4b45dc7 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1525,7 +1525,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst(compiler, VPOP | VD(SLJIT_FS0) | ((sljit_ins)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 18fee0f..ca858f5 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1714,7 +1714,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst32(compiler, VPOP | VD4(SLJIT_FS0) | ((sljit_uw)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
-- 
2.43.0


From 35f183836e7a19499e105eac922432b3670ba3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 086/117] fix: ARM-32 and Thumb-2 tail calls with
 SLJIT_CALL_REG_ARG do not rearrange the float arguments

---
 sljit_src/sljitNativeARM_32.c    | 20 ++++++++++----------
 sljit_src/sljitNativeARM_T2_32.c | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 4b45dc7..56173b2 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3507,16 +3507,16 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3613,16 +3613,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP;
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP;
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index ca858f5..77166d9 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3052,17 +3052,17 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3148,17 +3148,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP;
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 041b4a591ca7a2e9f3c9a007dc285428146c6351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 087/117] fix: MIPS stores addressed through the return address
 register are moved into the delay slot of calls

---
 sljit_src/sljitNativeMIPS_common.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index decaea3..dfe8ce5 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1430,7 +1430,9 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	}
 
 	/* Since tmp can be the same as base or offset registers,
-	 * these might be unavailable after modifying tmp. */
+	 * these might be unavailable after modifying tmp. TMP_REG3 is
+	 * the return address register, so instructions using it cannot
+	 * be moved into the delay slot of a call. */
 	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA)) {
 		tmp_ar = reg_ar;
 		delay_slot = reg_ar;
@@ -1447,14 +1449,14 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 		/* Using the cache. */
 		if (argw == compiler->cache_argw) {
 			if (arg == compiler->cache_arg)
-				return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar), delay_slot);
+				return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar), UNMOVABLE_INS);
 
 			if ((SLJIT_MEM | (arg & OFFS_REG_MASK)) == compiler->cache_arg) {
 				if (arg == next_arg && argw == (next_argw & 0x3)) {
 					compiler->cache_arg = arg;
 					compiler->cache_argw = argw;
 					FAIL_IF(push_inst(compiler, ADDU_W | S(base) | T(TMP_REG3) | D(TMP_REG3), DR(TMP_REG3)));
-					return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar), delay_slot);
+					return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar), UNMOVABLE_INS);
 				}
 				FAIL_IF(push_inst(compiler, ADDU_W | S(base) | T(TMP_REG3) | DA(tmp_ar), tmp_ar));
 				return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | SA(tmp_ar) | TA(reg_ar), delay_slot);
@@ -1472,6 +1474,7 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 			compiler->cache_argw = argw;
 			FAIL_IF(push_inst(compiler, ADDU_W | S(base) | T(!argw ? OFFS_REG(arg) : TMP_REG3) | D(TMP_REG3), DR(TMP_REG3)));
 			tmp_ar = DR(TMP_REG3);
+			delay_slot = UNMOVABLE_INS;
 		}
 		else
 			FAIL_IF(push_inst(compiler, ADDU_W | S(base) | T(!argw ? OFFS_REG(arg) : TMP_REG3) | DA(tmp_ar), tmp_ar));
@@ -1479,7 +1482,7 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	}
 
 	if (compiler->cache_arg == arg && argw - compiler->cache_argw <= SIMM_MAX && argw - compiler->cache_argw >= SIMM_MIN)
-		return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar) | IMM(argw - compiler->cache_argw), delay_slot);
+		return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar) | IMM(argw - compiler->cache_argw), UNMOVABLE_INS);
 
 	if (compiler->cache_arg == SLJIT_MEM && (argw - compiler->cache_argw) <= SIMM_MAX && (argw - compiler->cache_argw) >= SIMM_MIN) {
 		offset = argw - compiler->cache_argw;
@@ -1501,12 +1504,12 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	}
 
 	if (!base)
-		return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar) | IMM(offset), delay_slot);
+		return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar) | IMM(offset), UNMOVABLE_INS);
 
 	if (arg == next_arg && next_argw - argw <= SIMM_MAX && next_argw - argw >= SIMM_MIN) {
 		compiler->cache_arg = arg;
 		FAIL_IF(push_inst(compiler, ADDU_W | S(TMP_REG3) | T(base) | D(TMP_REG3), DR(TMP_REG3)));
-		return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar) | IMM(offset), delay_slot);
+		return push_inst(compiler, data_transfer_insts[flags & MEM_MASK] | S(TMP_REG3) | TA(reg_ar) | IMM(offset), UNMOVABLE_INS);
 	}
 
 	FAIL_IF(push_inst(compiler, ADDU_W | S(TMP_REG3) | T(base) | DA(tmp_ar), tmp_ar));
-- 
2.43.0


From a9cf8fc475b24e6a24c390ee83cd0c675a7a1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 088/117] fix: MIPS indirect tail calls with SLJIT_CALL_REG_ARG
 overwrite the return address

---
 sljit_src/sljitNativeMIPS_32.c | 2 ++
 sljit_src/sljitNativeMIPS_64.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index e4b96d5..d530f8b 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -431,6 +431,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
diff --git a/sljit_src/sljitNativeMIPS_64.c b/sljit_src/sljitNativeMIPS_64.c
index 965931b..df913ff 100644
--- a/sljit_src/sljitNativeMIPS_64.c
+++ b/sljit_src/sljitNativeMIPS_64.c
@@ -355,6 +355,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
-- 
2.43.0


From 4661c47d15142a4ad5c7c3bcd9c70d871db55c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:40 +0000
Subject: [PATCH 089/117] fix: ARM-32 ADDC with two-part negated immediate as
 first operand

---
 sljit_src/sljitNativeARM_32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 56173b2..6c23e5b 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2334,7 +2334,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 		src1_reg = (sljit_s32)compute_imm((sljit_uw)src1w, &imm2);
 
 		if (src1_reg == 0 && neg_op != 0) {
-			src1_reg = (sljit_s32)compute_imm((sljit_uw)-src1w, &imm2);
+			src1_reg = (sljit_s32)compute_imm((neg_op == SLJIT_SUB) ? (sljit_uw)-src1w : ~(sljit_uw)src1w, &imm2);
 			if (src1_reg != 0)
 				op = neg_op;
 		}
@@ -2349,6 +2349,8 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 
 			if (op == SLJIT_ADDC)
 				op = SLJIT_ADD;
+			else if (op == SLJIT_SUBC)
+				op = SLJIT_SUB;
 		}
 	}
 
-- 
2.43.0


From f74e8a31eae50a1718842e1e99a32e4350891f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:10 +0000
Subject: [PATCH 090/117] fix: PPC-64 indirect tail calls with
 SLJIT_CALL_REG_ARG rearrange the arguments

---
 sljit_src/sljitNativePPC_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index b3ec95c..d3de666 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2758,7 +2758,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		}
 
 		FAIL_IF(emit_stack_frame_release(compiler, 0));
-		type = SLJIT_JUMP;
 	}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
@@ -2766,6 +2765,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		FAIL_IF(call_with_args(compiler, arg_types, &src));
 #endif
 
+	if (type & SLJIT_CALL_RETURN)
+		type = SLJIT_JUMP;
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 3601f6a289a7425ffe1967c89fb47cea031c20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 091/117] fix: MIPS-32 sljit_set_context does not compute the
 size of the stack arguments

---
 sljit_src/sljitNativeMIPS_common.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index dfe8ce5..aa9806a 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1183,6 +1183,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 {
 	sljit_s32 fscratches = ENTER_GET_FLOAT_REGS(scratches);
 	sljit_s32 fsaveds = ENTER_GET_FLOAT_REGS(saveds);
+#if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
+	sljit_s32 arg_count;
+#endif /* SLJIT_CONFIG_MIPS_32 */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_set_context(compiler, options, arg_types, scratches, saveds, local_size));
@@ -1200,6 +1203,24 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	}
 
 	compiler->local_size = (local_size + SLJIT_LOCALS_OFFSET + 15) & ~0xf;
+
+	if (!(options & SLJIT_ENTER_REG_ARG)) {
+		arg_types >>= SLJIT_ARG_SHIFT;
+		arg_count = 0;
+
+		while (arg_types) {
+			if ((arg_types & SLJIT_ARG_MASK) == SLJIT_ARG_TYPE_F64) {
+				if ((arg_count & 0x1) != 0)
+					arg_count++;
+				arg_count++;
+			}
+
+			arg_count++;
+			arg_types >>= SLJIT_ARG_SHIFT;
+		}
+
+		compiler->args_size = (sljit_uw)arg_count << 2;
+	}
 #else
 	local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	compiler->local_size = (local_size + SLJIT_LOCALS_OFFSET + 31) & ~0x1f;
-- 
2.43.0


From c5a65b7494071bcf2da2ededde127038f915fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 092/117] fix: MIPS ADD and ADDC with zero first operand
 compute a wrong carry

---
 sljit_src/sljitNativeMIPS_common.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index aa9806a..18f82f3 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1901,7 +1901,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1923,7 +1924,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
-			if (is_overflow || carry_src_ar != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1940,7 +1941,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_ar != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(OTHER_FLAG) | IMM(src2), OTHER_FLAG));
 			else
@@ -1957,12 +1958,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | S(TMP_REG1) | TA(OTHER_FLAG) | DA(OTHER_FLAG), OTHER_FLAG);
 
 	case SLJIT_ADDC:
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
-			if (carry_src_ar != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1977,7 +1979,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_ar != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(EQUAL_FLAG) | IMM(src2), EQUAL_FLAG));
 			else
@@ -1986,7 +1988,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(dst) | TA(OTHER_FLAG) | D(dst), DR(dst)));
 
-		if (carry_src_ar == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
-- 
2.43.0


From 1cc8c4c80b03898e308ae6a63041a5d652e1dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 093/117] fix: MIPS-32 unaligned float accesses of local
 variables use a wrong offset

---
 sljit_src/sljitNativeMIPS_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 18f82f3..66c7009 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -4260,6 +4260,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fmem(compiler, type, freg, mem, memw));
 
+	ADJUST_LOCAL_OFFSET(mem, memw);
+
 	FAIL_IF(update_mem_addr(compiler, &mem, &memw, SIMM_MAX - (type & SLJIT_32) ? 3 : 7));
 	SLJIT_ASSERT(FAST_IS_REG(mem) && mem != TMP_REG2);
 
-- 
2.43.0


From 536d0a8c9f96d9ec9a2c087c2cecefcafb184d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:49 +0000
Subject: [PATCH 094/117] fix: PPC-64 OR and XOR truncate large immediates to
 32 bit

---
 sljit_src/sljitNativePPC_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index d3de666..0704ea7 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1752,7 +1752,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 #define TEST_ADD_IMM(src, srcw) \
 	((src) == SLJIT_IMM && (srcw) <= 0x7fff7fffl && (srcw) >= -0x80000000l)
 #define TEST_UI_IMM(src, srcw) \
-	((src) == SLJIT_IMM && !((srcw) & ~0xffffffff))
+	((src) == SLJIT_IMM && !((srcw) & ~(sljit_sw)0xffffffff))
 
 #define TEST_ADD_FORM1(op) \
 	(GET_FLAG_TYPE(op) == SLJIT_OVERFLOW \
-- 
2.43.0


From 798922c938c55c6971349bb402145dcd73e1e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 095/117] fix: PPC-32 SLJIT_COPY_TO_F64 with a single register
 does not keep the low order bits

---
 sljit_src/sljitNativePPC_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativePPC_32.c b/sljit_src/sljitNativePPC_32.c
index c07f4b4..068ff25 100644
--- a/sljit_src/sljitNativePPC_32.c
+++ b/sljit_src/sljitNativePPC_32.c
@@ -452,12 +452,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 	}
 
 	if (op == SLJIT_COPY_TO_F64) {
-		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
-
 		if (reg2 != 0)
 			FAIL_IF(push_inst(compiler, STW | S(reg2) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
 		else
-			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
+			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+
+		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
 
 		return push_inst(compiler, LFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET);
 	}
-- 
2.43.0


From 8cdaa01000a341c5b324fca2e8dfc2ea8dd4c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 096/117] fix: PPC sljit_emit_select overwrites the saved
 address register

---
 sljit_src/sljitNativePPC_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 0704ea7..ae9442d 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2953,13 +2953,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 				type ^= 0x1;
 		} else {
 			if (ADDRESSING_DEPENDS_ON(src1, dst_reg)) {
-				FAIL_IF(push_inst(compiler, OR | S(dst_reg) | A(TMP_REG1) | B(dst_reg)));
+				FAIL_IF(push_inst(compiler, OR | S(dst_reg) | A(TMP_REG2) | B(dst_reg)));
 
 				if ((src1 & REG_MASK) == dst_reg)
-					src1 = (src1 & ~REG_MASK) | TMP_REG1;
+					src1 = (src1 & ~REG_MASK) | TMP_REG2;
 
 				if (OFFS_REG(src1) == dst_reg)
-					src1 = (src1 & ~OFFS_REG_MASK) | TO_OFFS_REG(TMP_REG1);
+					src1 = (src1 & ~OFFS_REG_MASK) | TO_OFFS_REG(TMP_REG2);
 			}
 
 			FAIL_IF(push_inst(compiler, OR | S(src2_reg) | A(dst_reg) | B(src2_reg)));
-- 
2.43.0


From c49f6341a0546f52a2621e99abcd1742ef2f9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 097/117] fix: PPC-64 32 bit ADD and SUB do not set the carry
 flag when the zero flag is requested as well

---
 sljit_src/sljitNativePPC_64.c     | 6 ++++--
 sljit_src/sljitNativePPC_common.c | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 2b07fcb..ebb46a0 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -226,7 +226,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				src2 = TMP_REG2;
 			}
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			FAIL_IF(push_inst(compiler, ADD | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
+			FAIL_IF(push_inst(compiler, ((flags & ALT_FORM5) ? ADDC : ADD) | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
 			return SLJIT_SUCCESS;
@@ -311,7 +311,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			}
 
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			if (src1 != TMP_ZERO)
+			if (flags & ALT_FORM5)
+				FAIL_IF(push_inst(compiler, SUBFC | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
+			else if (src1 != TMP_ZERO)
 				FAIL_IF(push_inst(compiler, SUBF | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
 			else
 				FAIL_IF(push_inst(compiler, NEG | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2)));
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index ae9442d..319950a 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1813,7 +1813,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		compiler->status_flags_state = SLJIT_CURRENT_FLAGS_ADD;
 
 		if (TEST_ADD_FORM1(op))
-			return emit_op(compiler, SLJIT_ADD, flags | ALT_FORM1, dst, dstw, src1, src1w, src2, src2w);
+			return emit_op(compiler, SLJIT_ADD, flags | ALT_FORM1 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
 		if (!HAS_FLAGS(op) && (src1 == SLJIT_IMM || src2 == SLJIT_IMM)) {
 			if (TEST_SL_IMM(src2, src2w)) {
@@ -1908,7 +1908,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		}
 
 		if (TEST_SUB_FORM3(op))
-			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3, dst, dstw, src1, src1w, src2, src2w);
+			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
 		if (TEST_SL_IMM(src2, -src2w)) {
 			compiler->imm = (sljit_ins)(-src2w) & 0xffff;
-- 
2.43.0


From f879eaec202588bec68a490c38e88431ba621f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 098/117] fix: PPC-64 32 bit SUB from an immediate computes
 carry from the unused upper bits

---
 sljit_src/sljitNativePPC_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index ebb46a0..ffb93ed 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -324,8 +324,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		if (flags & ALT_FORM4) {
-			/* Flags does not set: BIN_IMM_EXTS unnecessary. */
 			SLJIT_ASSERT(src2 == TMP_REG2);
+			BIN_IMM_EXTS();
 			return push_inst(compiler, SUBFIC | D(dst) | A(src1) | compiler->imm);
 		}
 
-- 
2.43.0


From 7ae5c286eaf6b26129580a1593e4c2258bb26c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 099/117] fix: PPC SUB with a zero immediate sets the carry
 flag

---
 sljit_src/sljitNativePPC_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 319950a..bff5068 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1910,7 +1910,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		if (TEST_SUB_FORM3(op))
 			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3 | ((GET_FLAG_TYPE(op) == SLJIT_CARRY) ? ALT_FORM5 : 0), dst, dstw, src1, src1w, src2, src2w);
 
-		if (TEST_SL_IMM(src2, -src2w)) {
+		/* Adding zero never sets carry, although subtracting zero never sets borrow. */
+		if (TEST_SL_IMM(src2, -src2w) && (src2w != 0 || GET_FLAG_TYPE(op) != SLJIT_CARRY)) {
 			compiler->imm = (sljit_ins)(-src2w) & 0xffff;
 			return emit_op(compiler, SLJIT_ADD, flags | (!HAS_FLAGS(op) ? ALT_FORM2 : ALT_FORM3), dst, dstw, src1, src1w, TMP_REG2, 0);
 		}
-- 
2.43.0


From 7ba3ff3f72ebcf2622b45d30b52d6f1a4f7fff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:11 +0000
Subject: [PATCH 100/117] fix: s390x sljit_emit_op_flags ignores the offset of
 local variables

---
 sljit_src/sljitNativeS390X.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 3e6d4fd..4b33512 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3811,6 +3811,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
+	ADJUST_LOCAL_OFFSET(dst, dstw);
 
 	dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
 	mask = get_cc(compiler, type);
-- 
2.43.0


From 715f4a8b3431b88bf71e1f14a01d6f318f2f2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:11 +0000
Subject: [PATCH 101/117] fix: s390x sljit_emit_select with memory source
 destroys the condition code

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 4b33512..d8e1368 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3919,14 +3919,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 				src_r = tmp1;
 			}
 
-			FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(src_r) | R4A(tmp1) | R0A(gpr(src1 & REG_MASK))));
+			FAIL_IF(push_inst(compiler, 0x41000000 /* la */ | R20A(tmp1) | R16A(src_r) | R12A(gpr(src1 & REG_MASK))));
 			src_r = tmp1;
 			src1w = 0;
 		} else if (!is_s20(src1w)) {
 			FAIL_IF(push_load_imm_inst(compiler, tmp1, src1w));
 
 			if (src1 & REG_MASK)
-				FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(tmp1) | R4A(tmp1) | R0A(gpr(src1 & REG_MASK))));
+				FAIL_IF(push_inst(compiler, 0x41000000 /* la */ | R20A(tmp1) | R16A(tmp1) | R12A(gpr(src1 & REG_MASK))));
 
 			src_r = tmp1;
 			src1w = 0;
-- 
2.43.0


From 367e32d98e5861cb8f22bf48e615fbc35d1e8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 102/117] fix: s390x operations without destination overwrite
 their result with the address of the second operand

---
 sljit_src/sljitNativeS390X.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index d8e1368..0bb7ad7 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1063,7 +1063,8 @@ static sljit_s32 emit_rr(struct sljit_compiler *compiler, sljit_ins ins,
 
 		if (dst == src1)
 			needs_move = 0;
-		else if (dst == src2) {
+		else if (dst == src2 || dst == TMP_REG2) {
+			/* The tmp1 might be needed for loading src2. */
 			dst_r = tmp0;
 			needs_move = 2;
 		}
@@ -1190,7 +1191,8 @@ static sljit_s32 emit_rx(struct sljit_compiler *compiler, sljit_ins ins,
 
 		if (dst == src1)
 			needs_move = 0;
-		else if (dst == (src2 & REG_MASK) || (dst == OFFS_REG(src2))) {
+		else if (dst == (src2 & REG_MASK) || (dst == OFFS_REG(src2)) || dst == TMP_REG2) {
+			/* The tmp1 might be needed for the address of src2. */
 			dst_r = tmp0;
 			needs_move = 2;
 		}
-- 
2.43.0


From 62d40429a8ae9b5bcf2e772c46f9a39751d1f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 103/117] fix: s390x invalid address computation when a small
 immediate is added to memory

---
 sljit_src/sljitNativeS390X.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 0bb7ad7..dda60c0 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1240,19 +1240,20 @@ static sljit_s32 emit_siy(struct sljit_compiler *compiler, sljit_ins ins,
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_sw srcw)
 {
-	sljit_gpr dst_r = tmp1;
+	sljit_gpr dst_r = gpr(dst & REG_MASK);
 
 	SLJIT_ASSERT(dst & SLJIT_MEM);
 
 	if (dst & OFFS_REG_MASK) {
-		sljit_gpr index = tmp1;
+		sljit_gpr index = gpr(OFFS_REG(dst));
 
-		if ((dstw & 0x3) == 0)
-			index = gpr(OFFS_REG(dst));
-		else
+		if ((dstw & 0x3) != 0) {
 			FAIL_IF(push_inst(compiler, sllg(tmp1, index, dstw & 0x3, 0)));
+			index = tmp1;
+		}
 
 		FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, index)));
+		dst_r = tmp1;
 		dstw = 0;
 	}
 	else if (!is_s20(dstw)) {
@@ -1261,10 +1262,9 @@ static sljit_s32 emit_siy(struct sljit_compiler *compiler, sljit_ins ins,
 		if (dst & REG_MASK)
 			FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, tmp1)));
 
+		dst_r = tmp1;
 		dstw = 0;
 	}
-	else
-		dst_r = gpr(dst & REG_MASK);
 
 	return push_inst(compiler, ins | ((sljit_ins)(srcw & 0xff) << 32) | R28A(dst_r) | disp_s20((sljit_s32)dstw));
 }
-- 
2.43.0


From 80e134a9372fed6a4f7beb50e22c49d6cd25d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 104/117] fix: s390x zero flag of negation is wrong when the
 result is positive

---
 sljit_src/sljitNativeS390X.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index dda60c0..22ed09a 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2545,7 +2545,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		return emit_rr(compiler, ins, src1, src1, src1w, src2, src2w);
 	}
 
-	if (src1 == SLJIT_IMM && src1w == 0 && (flag_type == 0 || sets_signed)) {
+	if (src1 == SLJIT_IMM && src1w == 0 && (!HAS_FLAGS(op) || sets_signed)) {
 		ins = (op & SLJIT_32) ? 0x1300 /* lcr */ : 0xb9030000 /* lcgr */;
 		FAIL_IF(emit_rr1(compiler, ins, dst, src2, src2w));
 		goto done;
-- 
2.43.0


From 57535ff287db8e2e6f4b0c4f202d994bb9462e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 105/117] fix: s390x register pair loads overwrite the index
 register or use 32 bit address computation

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 22ed09a..1973d97 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4026,7 +4026,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			FAIL_IF(push_inst(compiler, 0xeb000000000d /* sllg */ | R36A(tmp1) | R32A(offs) | ((sljit_ins)memw << 16)));
 			offs = tmp1;
 		} else if (!(type & SLJIT_MEM_STORE) && (base == reg1 || base == reg2) && (offs == reg1 || offs == reg2)) {
-			FAIL_IF(push_inst(compiler, 0xb9f80000 | R12A(tmp1) | R4A(base) | R0A(offs)));
+			FAIL_IF(push_inst(compiler, 0x41000000 /* la */ | R20A(tmp1) | R16A(offs) | R12A(base)));
 			base = tmp1;
 			offs = 0;
 		}
@@ -4050,7 +4050,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 
 	ins = ((type & SLJIT_MEM_STORE) ? 0xe30000000024 /* stg */ : 0xe30000000004 /* lg */) | R32A(offs) | R28A(base);
 
-	if (!(type & SLJIT_MEM_STORE) && base == reg1) {
+	if (!(type & SLJIT_MEM_STORE) && (base == reg1 || offs == reg1)) {
 		FAIL_IF(push_inst(compiler, ins | R36A(reg2) | disp_s20((sljit_s32)memw + SSIZE_OF(sw))));
 		return push_inst(compiler, ins | R36A(reg1) | disp_s20((sljit_s32)memw));
 	}
-- 
2.43.0


From 0663f8cfb21574487a16aff5d73d08decb45111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 106/117] fix: PPC-64 zero flag of 32 bit AND, OR and XOR
 depends on the unused upper bits

---
 sljit_src/sljitNativePPC_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index ffb93ed..f9af529 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -365,6 +365,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			SLJIT_ASSERT(src2 == TMP_REG2);
 			return push_inst(compiler, ANDIS | S(src1) | A(dst) | compiler->imm);
 		}
+		BIN_EXTS();
 		return push_inst(compiler, AND | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_OR:
@@ -383,6 +384,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			FAIL_IF(push_inst(compiler, ORI | S(src1) | A(dst) | IMM(imm)));
 			return push_inst(compiler, ORIS | S(dst) | A(dst) | IMM(imm >> 16));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, OR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_XOR:
@@ -406,6 +408,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			UN_EXTS();
 			return push_inst(compiler, NOR | RC(flags) | S(src2) | A(dst) | B(src2));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, XOR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_SHL:
-- 
2.43.0


From f49b69aaa5a0672ea82cec1634b06d63be584868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:44 +0000
Subject: [PATCH 107/117] fix: MIPS float to integer conversions are moved into
 the delay slot of branches which depend on the result

---
 sljit_src/sljitNativeMIPS_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 66c7009..0449176 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2953,7 +2953,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_sw_from_f64(struct sljit_comp
 	FAIL_IF(push_inst(compiler, (TRUNC_W_S ^ (flags >> 19)) | FMT(op) | FS(src) | FD(TMP_FREG1), MOVABLE_INS));
 
 	if (FAST_IS_REG(dst)) {
-		FAIL_IF(push_inst(compiler, MFC1 | flags | T(dst) | FS(TMP_FREG1), MOVABLE_INS));
+		FAIL_IF(push_inst(compiler, MFC1 | flags | T(dst) | FS(TMP_FREG1), DR(dst)));
 #if !defined(SLJIT_MIPS_REV) || (SLJIT_CONFIG_MIPS_32 && SLJIT_MIPS_REV <= 1)
 		FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
 #endif /* MIPS III */
-- 
2.43.0


From f4c4a2c05d557f4bdb109b8d9e6e744039aa740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:45 +0000
Subject: [PATCH 108/117] fix: s390x 32 bit SUB with the smallest signed
 immediate sets wrong signed flags

---
 sljit_src/sljitNativeS390X.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 1973d97..5551ede 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -2584,7 +2584,8 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 				goto done;
 			}
 		}
-		else if ((op & SLJIT_32) || is_s32(neg_src2w)) {
+		/* The negated form of INT32_MIN is itself, which inverts the overflow. */
+		else if ((op & SLJIT_32) ? ((sljit_u32)src2w != 0x80000000) : is_s32(neg_src2w)) {
 			ins = (op & SLJIT_32) ? 0xc20900000000 /* afi */ : 0xc20800000000 /* agfi */;
 			FAIL_IF(emit_ri(compiler, ins, dst, src1, src1w, neg_src2w, RIL_A));
 			goto done;
-- 
2.43.0


From 3a9f27eccd7c593028457b4bc27fca1d4dd5252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 109/117] fix: PPC-64 conversions of 64 bit integers to single
 precision are rounded twice

---
 sljit_src/sljitNativePPC_64.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index f9af529..974f58d 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -573,6 +573,23 @@ static SLJIT_INLINE sljit_s32 emit_const(struct sljit_compiler *compiler, sljit_
 	return push_inst(compiler, ORI | S(reg) | A(reg) | IMM(init_value));
 }
 
+/* The low order bits which do not fit into the double precision number are merged
+   to avoid double rounding when the result is converted to single precision. */
+#define MERGE_LOW_BITS_SIZE ((sljit_ins)(9 * sizeof(sljit_ins)))
+
+static sljit_s32 merge_low_bits(struct sljit_compiler *compiler, sljit_s32 src)
+{
+	FAIL_IF(push_inst(compiler, SRADI | S(src) | A(TMP_REG2) | RLDI_SH(53)));
+	FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 1));
+	FAIL_IF(push_inst(compiler, CMPLI | CRD(0 | 1) | A(TMP_REG2) | 1));
+	FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_REG1) | B(src)));
+	FAIL_IF(push_inst(compiler, BCx | (4 << 21) | (1 << 16) | 20));
+	FAIL_IF(push_inst(compiler, CLRLDI(TMP_REG2, TMP_REG1, 53)));
+	FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 0x7ff));
+	FAIL_IF(push_inst(compiler, OR | S(TMP_REG1) | A(TMP_REG1) | B(TMP_REG2)));
+	return push_inst(compiler, RLDICR | S(TMP_REG1) | A(TMP_REG1) | RLDI_SH(0) | RLDI_ME(52));
+}
+
 static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_compiler *compiler, sljit_s32 op,
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 src, sljit_sw srcw)
@@ -591,6 +608,14 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_comp
 		else
 			FAIL_IF(emit_op_mem(compiler, INT_DATA | SIGNED_DATA | LOAD_DATA, TMP_REG1, src, srcw, TMP_REG1));
 		src = TMP_REG1;
+	} else if ((op & SLJIT_32) && !FAST_IS_REG(src)) {
+		FAIL_IF(emit_op_mem(compiler, WORD_DATA | LOAD_DATA, TMP_REG1, src, srcw, TMP_REG1));
+		src = TMP_REG1;
+	}
+
+	if ((op & SLJIT_32) && GET_OPCODE(op) != SLJIT_CONV_F64_FROM_S32) {
+		FAIL_IF(merge_low_bits(compiler, src));
+		src = TMP_REG1;
 	}
 
 	if (FAST_IS_REG(src)) {
@@ -640,8 +665,10 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		}
 
 		FAIL_IF(push_inst(compiler, CMPI | CRD(0 | 1) | A(src) | 0));
-		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | 20));
-		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | (20 + ((op & SLJIT_32) ? MERGE_LOW_BITS_SIZE : 0))));
+		if (op & SLJIT_32)
+			FAIL_IF(merge_low_bits(compiler, src));
+		FAIL_IF(push_inst(compiler, STD | S((op & SLJIT_32) ? TMP_REG1 : src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, FCFID | FD(dst_r) | FB(TMP_FREG1)));
 		FAIL_IF(push_inst(compiler, Bx | ((op & SLJIT_32) ? 36 : 32)));
-- 
2.43.0


From 54b60a8f652100c9b5f808df7e3784bf8f531441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 110/117] fix: x86-64 code size estimation is wrong for a label
 right after a mov_addr

---
 sljit_src/sljitNativeX86_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index bd0a746..1dc41ad 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -825,7 +825,8 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (next_min_addr == SLJIT_MAX_ADDRESS)
 			break;
 
-		if (next_min_addr == next_label_size) {
+		/* The address of a mov_addr is its end, so it precedes a label with the same address. */
+		if (next_min_addr == next_label_size && (next_min_addr != next_jump_addr || !(jump->flags & JUMP_MOV_ADDR))) {
 			label->size -= size_reduce;
 
 			label = label->next;
-- 
2.43.0


From c3736f810b7e81691c0060b509bbe011ec499e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:19 +0000
Subject: [PATCH 111/117] fix: x86-64 near jumps are selected for targets one
 byte out of range

A conditional jump is 6 bytes long, and an unconditional jump or call is
5 bytes long. The displacement is relative to the end of the instruction,
so the longer form limits the negative, and the shorter form limits the
positive range.
---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 1dc41ad..bae051a 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -692,7 +692,7 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	if ((sljit_sw)(label_addr - (jump_addr + 5)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 6)) < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 2bec374961e04844326a4bad6e913eb516b223fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:43 +0000
Subject: [PATCH 112/117] fix: x86-64 lea is selected for addresses which are
 out of its range

The displacement of lea is relative to its own end, which is three bytes
before the end of the mov instruction it replaces.
---
 sljit_src/sljitNativeX86_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 0bb4c72..5e619a4 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -411,7 +411,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 	   caller. The immediate value is stored after the code is generated,
 	   because the shorter forms may end before a 64 bit immediate value. */
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr + sizeof(sljit_sw), executable_offset);
+		/* The offset is relative to the end of the lea instruction. */
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr + 1 + sizeof(sljit_s32), executable_offset);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-- 
2.43.0


From 0de0027520996a2faef6f5e41a03d2050a378fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 113/117] fix: LoongArch long pc relative jumps can miss their
 targets by 4 Kbytes

The jirl offset has 16 bits, hence its 12th bit is not a sign bit, but the
upper part of the address was adjusted for these jumps as well. The
adjustment of mov_addr is limited to the addresses it can reach.
---
 sljit_src/sljitNativeLOONGARCH_64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 0452f03..71f6d47 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -512,7 +512,7 @@ static SLJIT_INLINE sljit_sw mov_addr_get_length(struct sljit_jump *jump, sljit_
 
 	diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(jump_addr, executable_offset);
 
-	if (diff >= S32_MIN && diff <= S32_MAX) {
+	if (diff >= S32_MIN && diff <= S32_MAX - 0x800) {
 		SLJIT_ASSERT(jump->flags >= ((sljit_uw)1 << JUMP_SIZE_SHIFT));
 		jump->flags |= PATCH_REL32;
 		return 1;
@@ -547,7 +547,8 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 
 		SLJIT_ASSERT((sljit_sw)addr >= S32_MIN && (sljit_sw)addr <= S32_MAX);
 
-		if ((addr & 0x800) != 0)
+		/* The offset of JIRL is not sign extended from the 12th bit. */
+		if ((flags & JUMP_MOV_ADDR) && (addr & 0x800) != 0)
 			addr += 0x1000;
 
 		ins[0] = PCADDU12I | RD(reg) | IMM_I20(addr);
-- 
2.43.0


From 37966306578fb03e1d6d7c06d5ef4389191bf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 114/117] fix: ARMv6 direct calls are selected for targets
 which are out of their range

---
 sljit_src/sljitNativeARM_32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 6c23e5b..836fcd4 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -530,6 +530,9 @@ static SLJIT_INLINE sljit_s32 detect_jump_type(struct sljit_jump *jump, sljit_uw
 
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	if (jump->flags & IS_BL) {
+		/* The branch replaces the previous instruction. */
+		diff += SSIZE_OF(ins);
+
 		if (diff <= 0x01ffffff && diff >= -0x02000000) {
 			*code_ptr = (BL - CONDITIONAL) | (*(code_ptr + 1) & COND_MASK);
 			jump->flags |= PATCH_B;
-- 
2.43.0


From e03c740fdf1103c89214a02f2d6bdbe4ed717dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 115/117] fix: MIPS conditional jumps can select a jump for
 another 256 Mbyte region

---
 sljit_src/sljitNativeMIPS_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 0449176..2bf2acc 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -571,7 +571,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	jump_addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(jump->addr, executable_offset);
 
 	if (jump->flags & IS_COND) {
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			saved_inst = inst[0];
 			inst[0] = inst[-1];
@@ -580,7 +580,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			inst[2] = NOP;
 			return inst + 2;
 		}
-		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (inst[0] & 0xffff0000) | 3;
 			inst[1] = NOP;
-- 
2.43.0


From d4dcc172a9ea396098a18d06c2a767b80d656366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 116/117] fix: PPC conditional jumps to low absolute addresses
 are encoded incorrectly

The absolute address of a conditional branch is sign extended, and two
instructions are needed when the target is out of its range.
---
 sljit_src/sljitNativePPC_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index bff5068..429e7f2 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -354,7 +354,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			jump->flags |= PATCH_B;
 			return code_ptr;
 		}
-		if (target_addr <= 0xffff) {
+		if (target_addr <= 0x7fff) {
 			jump->flags |= PATCH_B | PATCH_ABS_B;
 			return code_ptr;
 		}
@@ -568,7 +568,7 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
 				if (jump->flags & JUMP_ADDR) {
 					if (jump->u.target <= 0x01ffffff)
-						total_size = 1 - 1;
+						total_size = ((jump->flags & IS_COND) && jump->u.target > 0x7fff) ? (2 - 1) : (1 - 1);
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 					else if (jump->u.target < 0x80000000l)
 						total_size = 4 - 1;
-- 
2.43.0


From ce553253a3e4d99cf39f832c5352e3b73f2398ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:35 +0000
Subject: [PATCH 117/117] fix: ARM-Thumb2 absolute addresses of far Thumb code
 are out of the subw range

---
 sljit_src/sljitNativeARM_T2_32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 77166d9..e15822a 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -427,7 +427,8 @@ static SLJIT_INLINE sljit_sw mov_addr_get_length(struct sljit_jump *jump, sljit_
 
 	/* Note: ADR with imm8 does not set the last bit (Thumb2 flag). */
 
-	if (diff <= 0xffd + 2 * SSIZE_OF(u16) && diff >= -0xfff + 2 * SSIZE_OF(u16)) {
+	/* The Thumb2 flag of the address may be cleared (absolute addresses). */
+	if (diff <= 0xffd + 2 * SSIZE_OF(u16) && diff >= -0xffe + 2 * SSIZE_OF(u16)) {
 		jump->flags |= PATCH_TYPE6;
 		return 1;
 	}
-- 
2.43.0

