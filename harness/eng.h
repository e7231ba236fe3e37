/* Common definitions: instruction list (IR), machine model, generator state. */
#ifndef ENG_H
#define ENG_H
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>

#if (defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
#define WS 8
#define WBITS 64
#else
#define WS 4
#define WBITS 32
#endif
#define NR SLJIT_NUMBER_OF_REGISTERS
#define NFR SLJIT_NUMBER_OF_FLOAT_REGISTERS
#define NVR SLJIT_NUMBER_OF_VECTOR_REGISTERS
#define NSR SLJIT_NUMBER_OF_SAVED_REGISTERS
#define NFSR SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS
#define NVSR SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS
#define MAXREG 40
#define VBYTES 64

typedef sljit_s32 s32; typedef sljit_u32 u32; typedef sljit_sw sw; typedef sljit_uw uw;
typedef int64_t i64; typedef uint64_t u64; typedef uint8_t u8;

enum { K_NONE, K_OP0, K_OP1, K_OP2, K_OP2U, K_OP2R, K_SHINTO, K_SRC, K_GETRA, K_FOP1, K_FOP2, K_FOP2R, K_FSET,
  K_FCOPY, K_LABEL, K_JUMP, K_CMP, K_FCMP, K_OP2CMPZ, K_OPFLAGS, K_SELECT, K_FSELECT, K_MEM, K_MEMU, K_FMEM, K_FMEMU,
  K_LOCB, K_CONST, K_OPADDR, K_IJUMP, K_FCALL, K_FENTER, K_FRET, K_CALL, K_PAD, K_RET, K_CUSTOM, K_SETFLAGS, K_ALIGNED,
  K_SMOV, K_SREP, K_SLANE, K_SLREP, K_SEXT, K_SSIGN, K_SOP2, K_ATOMIC, K_PREFETCH, K_ROBUF, K_IF, K_LOOP, K_SUB, K_SWITCH, K_FLAGLAB, K_LAST };

typedef struct ins {
  int kind; s32 op;
  s32 d; sw dw; s32 a; sw aw; s32 b; sw bw; s32 c; sw cw;
  int lab;      /* label id, call id, const id ... */
  int x, y;     /* kind specific */
  u64 bits;
} ins;

#define MAXINS 60000
#define MAXLAB 4000
extern ins prog[MAXINS]; extern int np;
extern int label_pc[MAXLAB]; extern int nlab;

/* data buffer layout */
#define OFF_INT 0x1000
#define SZ_INT 0x400
#define OFF_FLT 0x1400   /* 64 f64 slots then 128 f32 slots */
#define OFF_F32 0x1600
#define OFF_VEC 0x1800
#define SZ_VEC 0x400
#define OFF_SCR 0x1c00   /* not compared: return addresses, code addresses */
#define SZ_SCR 0x200
#define OFF_CTR 0x1e00   /* loop counters */
#define OFF_IN 0x2000    /* inputs */
#define OFF_FIN 0x2200
#define OFF_VIN 0x2400
#define OFF_OUT 0x3000
#define OFF_FOUT 0x3200
#define OFF_VOUT 0x3400
#define OFF_LOUT 0x4000  /* copy of local windows */
#define OFF_LOG 0x5000
#define SZ_LOG 0x2000
#define BUFSZ 0x8000

extern u8 *buf;           /* executing buffer */
extern u8 mmem[BUFSZ];    /* model memory */
extern u8 mtag[BUFSZ];    /* 1: first byte of f32 "any nan", 2: of f64 */
#define MAXLOC (1<<20)

/* rng */
extern u64 rs;
static inline u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static inline u32 rn(u32 n){ return n? (u32)((rnd()>>33)%n):0; }
static inline int pc(int p){ return rn(100)<(u32)p; }
u64 rimm(void); u64 rf64(void); u32 rf32(void);

/* profile */
typedef struct { const char *name; int nins; int w[K_LAST]; int flagp, memp, immp, logp, padp, nan, branch, loops, calls, fcalls, ijmp, bigloc, runs, rewrite, floats, vecs, far; } prof;
extern prof P;

/* context of the function being generated */
extern int c_scr,c_sav,c_fscr,c_fsav,c_vscr,c_vsav,c_loc,c_ret; extern s32 c_opt;
extern int has_fpu,has_simd;
int isreg(int r); int isfreg(int r); int isvreg(int r); int addr_ok(int r);

/* calls */
#define NCALLEE 12
typedef struct { s32 types; void *fn; const char*name; } callee;
extern callee callees[NCALLEE];
typedef struct { int id; u64 v[4]; } crec;
extern crec clog_[256], mlog[256]; extern int nclog, nmlog;
u64 callee_eval(int id, u64 *v, crec *out);

/* consts, rewritables */
extern int c_args,c_nargs; extern u8 c_argt[4],c_argr[4];
extern struct sljit_compiler *probe;
typedef struct { int lab; int size; int off; } robuf; extern robuf robs[64]; extern int nrob; extern u8 robdata[65536]; extern int robused;
#define LABFAKE ((u64)0x20000000+model_fake)
extern struct win { int off,size; } wins[4]; extern int nwin;
extern int nopsize;
extern int nconst; extern sw constv[2000]; extern s32 constop[2000];
extern int swtarget[MAXINS]; /* per jump instruction: current target label (rewritable jumps) */

void generate(void);
void prog_print(FILE*f);
/* model */
typedef struct { u8 rt[MAXREG+2],fw[MAXREG+2]; /* width of the last write */ u64 r[MAXREG+2]; u64 f[MAXREG+2]; u8 fx[MAXREG+2]; u8 v[MAXREG+2][VBYTES]; int z,var,unord; u8 loc[MAXLOC]; u8 ltag[MAXLOC]; u64 ret; u8 retx; long steps; int unspec; } mach;
extern mach M; extern u64 model_garbage;
int model_run(void);
extern u64 model_fake; /* varied between the two reference runs: code and stack addresses are unspecified */
#define LOCFAKE ((u64)0x30000000+model_fake)
#endif
