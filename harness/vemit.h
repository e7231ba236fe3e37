/* Force-included when the library of another CPU is compiled for the host: code is only generated, never run.
   Executable memory comes from exactly sized heap blocks which the sanitizers watch. */
#if !defined VEMIT_H && !defined __ASSEMBLER__
#define VEMIT_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <setjmp.h>
#include <stdarg.h>
#include <math.h>
#include <dirent.h>
#include <pthread.h>
#include <assert.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/auxv.h>
void *v_exec_malloc(size_t size); void v_exec_free(void *p); long v_exec_offset(void *p);
#define SLJIT_EXECUTABLE_ALLOCATOR 0
#ifndef SLJIT_PROT_EXECUTABLE_ALLOCATOR
#define SLJIT_PROT_EXECUTABLE_ALLOCATOR 1
#endif
#define SLJIT_MALLOC_EXEC(size, data) v_exec_malloc(size)
#define SLJIT_FREE_EXEC(p, data) v_exec_free(p)
#define SLJIT_EXEC_OFFSET(p) v_exec_offset(p)
#define SLJIT_CACHE_FLUSH(a, b) ((void)(a), (void)(b))
#if defined SLJIT_CONFIG_S390X
#undef __ARCH__
#define __ARCH__ 11
#ifndef HWCAP_S390_STFLE
#define HWCAP_S390_STFLE 0
#endif
#define getauxval(x) 0x5a5aUL
#define __asm__
#define __volatile__(...) ((void)0)
#elif defined SLJIT_CONFIG_LOONGARCH_64
#define getauxval(x) 0x30UL
#define __asm__(...) ((void)0)
#elif defined SLJIT_CONFIG_MIPS_32 || defined SLJIT_CONFIG_MIPS_64
#define SLJIT_IS_FPU_AVAILABLE 64
#elif defined SLJIT_CONFIG_PPC_64
__asm__(".macro cntlzd d, s\n\tbsrq \\s, \\d\n\txorq $63, \\d\n.endm\n");
#elif defined SLJIT_CONFIG_RISCV_64 || defined SLJIT_CONFIG_RISCV_32
__asm__(".macro csrr a, b\n\tmov $16, \\a\n.endm\n");
#endif
#endif
