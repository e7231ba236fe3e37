/* Trampoline: calls fn on a private stack with known values in every callee saved register and records
   the registers when it returns. Every field is an 8 byte slot. */
#ifndef TRAMP_H
#define TRAMP_H
#define T_FN 0
#define T_ARG 8
#define T_RET 40
#define T_FRET 48
#define T_FRET32 56
#define T_FKIND 64
#define T_STK 72
#define T_SPAFTER 80
#define T_SAVESP 88
#define T_SIN 128
#define T_SOUT 384
#define T_FIN 640
#define T_FOUT 896
#define T_SIZE 1152
#ifndef __ASSEMBLER__
#include <stdint.h>
extern unsigned char tramp_buf[T_SIZE];
void tramp(void*); extern char tramp_ret[];
#if defined __x86_64__
enum { TR_NS=6, TR_NF=0, TR_HOME=0 }; static const char*const tr_names[]={"rbx","rbp","r12","r13","r14","r15"};
#elif defined __i386__
enum { TR_NS=4, TR_NF=0, TR_HOME=16 }; static const char*const tr_names[]={"ebx","esi","edi","ebp"};
#elif defined __aarch64__
enum { TR_NS=11, TR_NF=8, TR_HOME=0 }; static const char*const tr_names[]={"x19","x20","x21","x22","x23","x24","x25","x26","x27","x28","x29"};
#elif defined __arm__
enum { TR_NS=8, TR_NF=8, TR_HOME=0 }; static const char*const tr_names[]={"r4","r5","r6","r7","r8","r9","r10","r11"};
#elif defined __riscv
enum { TR_NS=12, TR_NF=12, TR_HOME=0 }; static const char*const tr_names[]={"s0","s1","s2","s3","s4","s5","s6","s7","s8","s9","s10","s11"};
#elif defined __s390x__
enum { TR_NS=8, TR_NF=8, TR_HOME=160 }; static const char*const tr_names[]={"r6","r7","r8","r9","r10","r11","r12","r13"};
#elif defined __loongarch__
enum { TR_NS=10, TR_NF=8, TR_HOME=0 }; static const char*const tr_names[]={"fp","s0","s1","s2","s3","s4","s5","s6","s7","s8"};
#elif defined __powerpc64__
enum { TR_NS=19, TR_NF=18, TR_HOME=96 }; static const char*const tr_names[]={"r14","r15","r16","r17","r18","r19","r20","r21","r22","r23","r24","r25","r26","r27","r28","r29","r30","r31","cr2-4"};
#elif defined __powerpc__
enum { TR_NS=19, TR_NF=18, TR_HOME=8 }; static const char*const tr_names[]={"r14","r15","r16","r17","r18","r19","r20","r21","r22","r23","r24","r25","r26","r27","r28","r29","r30","r31","cr2-4"};
#elif defined __mips64
enum { TR_NS=9, TR_NF=8, TR_HOME=0 }; static const char*const tr_names[]={"s0","s1","s2","s3","s4","s5","s6","s7","fp"};
#elif defined __mips__
enum { TR_NS=9, TR_NF=6, TR_HOME=16 }; static const char*const tr_names[]={"s0","s1","s2","s3","s4","s5","s6","s7","fp"};
#endif
#endif
#endif
