/* C16: argument checks. Random calls of every API function with valid or mutated arguments; an independent predicate (written from the documentation
   in sljitLir.h) says VALID / INVALID. INVALID: the call must fail with SLJIT_ERR_BAD_ARGUMENT, the error must stay, every later call (even with garbage
   arguments) must return it, nothing more is emitted and no code is generated. VALID: the call must be accepted, and valid programs must generate code.
   Calls for which the documentation leaves the answer open are not made. */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
typedef sljit_uw uw; typedef sljit_sw sw; typedef uint64_t u64; typedef uint8_t u8; typedef sljit_s32 s32; typedef struct sljit_compiler C;
#ifdef WITH_EMIT
#define BLKMAX (8u<<20)
static u8*blk;
void *v_exec_malloc(size_t n){ if(n>BLKMAX) return NULL; return blk; } void v_exec_free(void*p){ (void)p; } long v_exec_offset(void*p){ (void)p; return 0; }
static void __attribute__((constructor)) ini(void){ blk=mmap((void*)0x60000000,BLKMAX,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(blk!=(u8*)0x60000000){ fprintf(stderr,"HARNESS: cannot map the code block\n"); _exit(9); } }
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
unsigned __aeabi_uidivmod(unsigned a,unsigned b){ return b?a/b:0; }
int __aeabi_idivmod(int a,int b){ return b?a/b:0; }
#endif
#endif
static u64 sm(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static u64 rs; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static unsigned rn(unsigned n){ return n?(unsigned)((rnd()>>33)%n):0; }
static u64 cur; static long nfail,n_calls,n_valid,n_invalid,n_sticky,n_gen,n_flagbad,n_unsup,n_cases; static int maxfail=5,o_print; static FILE*fforms;
static char what[600]; static const char*why="",*fnname="";
static int fail(const char*kind,const char*f,...){ va_list a; char b[700]; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); printf("FAIL profile=args seed=%llu kind=%s | %s\n",(unsigned long long)cur,kind,b); fflush(stdout); nfail++; return 1; }
static void onsig(int s){ char b[900]; int n=snprintf(b,sizeof b,"FAIL profile=args seed=%llu kind=signal | signal %d in %s (%s)\n",(unsigned long long)cur,s,what,why); if(write(1,b,n)<0){} _exit(1); }
#define IS64 (sizeof(sw)==8)
#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
#define VIRT(r) ((r)>=SLJIT_R3&&(r)<=SLJIT_S3)
#else
#define VIRT(r) 0
#endif
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
#define CPUOPT SLJIT_ENTER_USE_VEX
#else
#define CPUOPT 0
#endif
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32) || (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
#define HASF64SECOND 1
#else
#define HASF64SECOND 0
#endif
/* context known to the documentation */
static s32 ns,nv,nfs,nfv,nvs,nvv,loc,opts,rett;
/* flags: fz: 1 zero flag set, 0 not set, -1 unknown; fv: flag type, 0 not set, -1 unknown; f32: width */
static int fz,fv,f32w; static void fnone(void){ fz=fv=0; f32w=0; } static void funk(void){ if(fz>0) fz=-1; if(fv>0) fv=-1; }
static int inval,bad; /* inval: the call is invalid, bad: the caller wants an invalid argument */
static int take(const char*w){ if(bad&&!inval&&rn(3)==0){ inval=1; why=w; return 1; } return 0; }
static int isreg(s32 r){ return (r>=SLJIT_R0&&r<SLJIT_R0+ns)||(r>SLJIT_S0-nv&&r<=SLJIT_S0); }
static int isfreg(s32 r){ return (r>=SLJIT_FR0&&r<SLJIT_FR0+nfs)||(r>SLJIT_FS0-nfv&&r<=SLJIT_FS0); }
static s32 okreg(void){ s32 n=ns+nv; if(!n) return 0; s32 k=rn(n); return k<ns?SLJIT_R(k):SLJIT_S(k-ns); }
static s32 okfreg(void){ s32 n=nfs+nfv; if(!n) return 0; s32 k=rn(n); return k<nfs?SLJIT_FR(k):SLJIT_FS(k-nfs); }
static s32 badreg(void){ s32 r; int t=0; do { switch(rn(9)){ case 0: r=0; break; case 1: r=SLJIT_SP; break; case 2: r=SLJIT_R0+ns; break; case 3: r=SLJIT_S0-nv; break; case 4: r=SLJIT_TMP_REGISTER_BASE+SLJIT_NUMBER_OF_TEMPORARY_REGISTERS; break; case 5: r=0x7e; break; case 6: r=-(s32)rn(4)-1; break; case 7: r=okreg()|0x10000; break; default: r=1+rn(SLJIT_NUMBER_OF_REGISTERS); } if(++t>200) return 0; } while(isreg(r)||(r>=SLJIT_TMP_REGISTER_BASE&&r<SLJIT_TMP_REGISTER_BASE+SLJIT_NUMBER_OF_TEMPORARY_REGISTERS)); return r; }
static s32 badfreg(void){ s32 r; int t=0; do { switch(rn(6)){ case 0: r=0; break; case 1: r=SLJIT_FR0+nfs; break; case 2: r=SLJIT_FS0-nfv; break; case 3: r=SLJIT_TMP_FREGISTER_BASE+SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS; break; case 4: r=-(s32)rn(4)-1; break; default: r=1+rn(SLJIT_NUMBER_OF_FLOAT_REGISTERS); } if(++t>200) return 0; } while(isfreg(r)||(r>=SLJIT_TMP_FREGISTER_BASE&&r<SLJIT_TMP_FREGISTER_BASE+SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS)||(HASF64SECOND&&r>SLJIT_TMP_FREGISTER_BASE)); return r; }
static int need; /* the call needs something the context does not offer: do not make it */
static s32 R(void){ if(take("register not available")) return badreg(); s32 r=okreg(); if(!r) need=1; return r; }
static s32 baser(void){ int i; for(i=0;i<20;i++){ s32 r=okreg(); if(r&&!VIRT(r)) return r; } return 0; }
static sw wide(void){ static const int b[]={0,1,-1,4,8,127,128,-128,255,256,-256,2047,2048,-2048,-2049,4095,4096,-4095,32767,32768,-32768,65535,65536,0xfffff,0x7fffffff}; if(rn(3)) return b[rn(sizeof b/sizeof b[0])]; return (sw)rnd(); }
typedef struct { s32 p; sw w; } opd;
static opd M(void)
{
  opd o={0,0}; s32 b,x;
  if(take("bad memory operand")) {
    b=baser(); x=baser();
    switch(rn(10)){
    case 0: o.p=SLJIT_MEM1(SLJIT_SP); o.w=-1-(sw)rn(9); return o;
    case 1: o.p=SLJIT_MEM1(SLJIT_SP); o.w=loc+(rn(2)?0:(sw)rn(100)); return o;
    case 2: o.p=SLJIT_MEM1(SLJIT_SP); o.w=IS64?(sw)(((u64)1<<32)+rn(8)):(sw)0x7fffffff; return o;
    case 3: if(b&&x){ o.p=SLJIT_MEM2(b,x); static const sw s[]={4,5,-1,8,64,0x100}; o.w=s[rn(6)]; return o; } break;
    case 4: if(x){ o.p=SLJIT_MEM2(SLJIT_SP,x); return o; } break;
    case 5: if(b){ o.p=SLJIT_MEM2(b,SLJIT_SP); return o; } break;
    case 6: if(x){ o.p=SLJIT_MEM2(0,x); o.w=rn(4); return o; } break;
    case 7: if(b){ o.p=SLJIT_MEM1(b)|(rn(2)?0x8000<<rn(15):0x40000000); if(o.p==SLJIT_MEM1(b)) break; return o; } break;
    case 8: if(VIRT(SLJIT_R3)){ int i; for(i=0;i<30;i++){ s32 r=okreg(); if(r&&VIRT(r)){ if(rn(2)||!b) o.p=SLJIT_MEM1(r); else o.p=rn(2)?SLJIT_MEM2(r,b):SLJIT_MEM2(b,r); return o; } } } break;
    case 9: if(b){ s32 r=badreg(); if(r>0&&r<0x7f&&(r!=SLJIT_SP)){ o.p=rn(2)?SLJIT_MEM2(b,r):SLJIT_MEM2(r,b); return o; } } break;
    }
    { s32 r; int t=0; do { r=1+rn(0x7e); if(++t>100) break; } while(isreg(r)||r==SLJIT_SP||(r>=SLJIT_TMP_REGISTER_BASE&&r<SLJIT_TMP_REGISTER_BASE+SLJIT_NUMBER_OF_TEMPORARY_REGISTERS)); o.p=SLJIT_MEM1(r); o.w=rn(64); return o; }
  }
  b=baser(); x=baser();
  switch(rn(5)){
  case 0: if(b&&x){ o.p=SLJIT_MEM2(b,x); o.w=rn(4); return o; } /* fallthrough */
  case 1: if(loc>0){ o.p=SLJIT_MEM1(SLJIT_SP); o.w=rn(3)==0?0:rn(2)?loc-1:(sw)rn(loc); return o; } /* fallthrough */
  case 2: case 3: if(b){ o.p=SLJIT_MEM1(b); o.w=wide(); return o; } /* fallthrough */
  default: o.p=SLJIT_MEM0(); o.w=wide(); return o;
  }
}
static opd D(void){ opd o={0,0}; if(take("bad destination")){ switch(rn(4)){ case 0: o.p=SLJIT_IMM; o.w=rn(2)?0:wide(); return o; case 1: { o.p=okreg(); if(o.p){ o.w=1+rn(100); if(rn(3)==0) o.w=-o.w; if(IS64&&rn(3)==0) o.w=(sw)((u64)1<<32); return o; } } /* fallthrough */ default: o.p=badreg(); return o; } }
  if(rn(2)){ o.p=okreg(); if(o.p) return o; } return M(); }
static opd S(void){ opd o={0,0}; if(take("bad source")){ o.p=okreg(); if(o.p&&rn(2)){ o.w=1+rn(1000); if(IS64&&rn(3)==0) o.w=(sw)((u64)1<<32); return o; } o.p=badreg(); return o; } if(rn(3)==0){ o.p=SLJIT_IMM; o.w=wide(); return o; } if(rn(2)){ o.p=okreg(); if(o.p) return o; } return M(); }
static s32 FR(void){ if(take("float register not available")) return badfreg(); s32 r=okfreg(); if(!r) need=1; return r; }
static opd FD(void){ opd o={0,0}; if(take("bad float operand")){ switch(rn(3)){ case 0: o.p=SLJIT_IMM; return o; case 1: o.p=okfreg(); if(o.p){ o.w=1+rn(100); return o; } /* fallthrough */ default: o.p=badfreg(); return o; } } if(rn(2)){ o.p=okfreg(); if(o.p) return o; } return M(); }
static s32 cond(void){ /* valid conditions given the flags; returns -1 when none */
  if(take("flag is not set")){ int i; n_flagbad++; for(i=0;i<60;i++){ s32 c=rn(SLJIT_ORDERED_LESS_EQUAL+1),b=c&~1; if(c==SLJIT_ATOMIC_NOT_STORED+100) continue; if(b==SLJIT_EQUAL){ if(fz==0) return c; continue; } if(fv==-1||b==fv) continue; if((b&0xfe)==(SLJIT_ORDERED&0xfe)&&fv>=SLJIT_UNORDERED) continue; return c; } inval=0; why=""; }
  if(fz==1&&(fv<=0||rn(2))) return SLJIT_EQUAL+rn(2);
  if(fv>0) return fv+rn(2);
  return -1;
}
static s32 badop(s32 lo,s32 hi){ s32 o; do { switch(rn(4)){ case 0: o=lo-1; break; case 1: o=hi+1; break; case 2: o=(lo+rn(hi-lo+1))|(rn(2)?0x10000000:0x80000); break; default: o=rn(256); } } while(o>=lo&&o<=hi); return o; }
/* signatures */
static int sig_ok(s32 t,int regarg,int call) /* documented rules */
{
  s32 r=t&0xf; int i,ended=0,words=0,saved=0,fl=0,lastr=0; if(r>SLJIT_ARG_TYPE_F32) return 0; if((r==SLJIT_ARG_TYPE_W||r==SLJIT_ARG_TYPE_32||r==SLJIT_ARG_TYPE_P)&&ns<1) return 0; if((r==SLJIT_ARG_TYPE_F64||r==SLJIT_ARG_TYPE_F32)&&nfs<1) return 0;
  for(i=1;i<8;i++){ s32 a=(t>>(4*i))&0xf; if(a==0){ ended=1; continue; } if(ended||i>4) return 0; s32 k=a&7;
    if(k<SLJIT_ARG_TYPE_W||k>SLJIT_ARG_TYPE_F32) return 0;
    if(a&SLJIT_ARG_TYPE_SCRATCH_REG){ if(call||k>SLJIT_ARG_TYPE_P) return 0; words++; lastr=words; }
    else if(k<=SLJIT_ARG_TYPE_P){ words++; saved++; } else fl++; }
  if(call) return words<=ns&&fl<=nfs; if(regarg&&saved) return 0; return saved<=nv&&lastr<=ns&&fl<=nfs;
}
static s32 rsig(int regarg,int call){ int n=rn(5),i; s32 t=rn(6); for(i=1;i<=n;i++){ s32 a=1+rn(5); if(!call&&a<=3&&(regarg||rn(3)==0)) a|=SLJIT_ARG_TYPE_SCRATCH_REG; t|=a<<(4*i); } return t; }
static s32 mutsig(s32 t){ switch(rn(6)){ case 0: return t|0x8; case 1: return (t&~0xf)|(6+rn(2)); case 2: return t|(6<<4); case 3: return (t&0xfffff)|(1<<20)|(rn(2)?0x11110:0); case 4: return (t&~0xf0)|0x100; default: return (s32)(rnd()&0x7fffffff); } }
static s32 sigdep(s32 t){ int i; for(i=0;i<8;i++){ (void)i; } return t; }
#define W(...) do { snprintf(what,sizeof what,__VA_ARGS__); n_calls++; if(o_print) printf("  %s%s%s\n",what,inval?" INVALID: ":"",inval?why:""); } while(0)
static struct sljit_jump*pend[64]; static int npend; static int ptr_ok; /* result of a pointer function */
static s32 PR(C*c,void*p){ s32 e=sljit_get_compiler_error(c); ptr_ok=1; if(p&&e){ fail("pointer","%s returned a pointer although the error is %d",what,(int)e); } if(!p&&!e){ fail("pointer","%s returned NULL without an error",what); } return e; }
static s32 J(C*c,struct sljit_jump*j){ if(j&&npend<64) pend[npend++]=j; return PR(c,j); }
#define X(o) (int)(o).p,(long)(o).w
enum { F_OP0,F_OP1,F_OP2,F_OP2U,F_OP2R,F_SHIFTINTO,F_OPSRC,F_OPDST,F_FOP1,F_FCMPOP,F_CONVFROM,F_CONVTO,F_FOP2,F_FOP2R,F_FSET32,F_FSET64,F_FCOPY,F_LABEL,F_ALABEL,F_JUMP,F_CALL,F_CMP,F_FCMP,F_OP2CMPZ,F_IJUMP,F_ICALL,F_OPFLAGS,F_SELECT,F_FSELECT,F_MEM,F_MEMUP,F_FMEM,F_FMEMUP,F_SMOV,F_SREP,F_SLMOV,F_SLREP,F_SEXT,F_SSIGN,F_SOP2,F_ALOAD,F_ASTORE,F_LOCBASE,F_CONST,F_OPADDR,F_CUSTOM,F_RETVOID,F_RET,F_RETTO,F_SETCTX,F_ENTER,F_SETFLAGS,F_N };
static const char*const fname[]={"op0","op1","op2","op2u","op2r","shift_into","op_src","op_dst","fop1","fop1_cmp","fop1_conv_from","fop1_conv_to","fop2","fop2r","fset32","fset64","fcopy","label","aligned_label","jump","call","cmp","fcmp","op2cmpz","ijump","icall","op_flags","select","fselect","mem","mem_update","fmem","fmem_update","simd_mov","simd_replicate","simd_lane_mov","simd_lane_replicate","simd_extend","simd_sign","simd_op2","atomic_load","atomic_store","local_base","const","op_addr","custom","return_void","return","return_to","set_context","enter","set_current_flags"};
static s32 op2flags(s32 o) /* adds documented flags */
{
  s32 b=o&0xff;
  if(take("flag combination not allowed")){ switch(rn(4)){
    case 0: if(b>=SLJIT_AND&&b<=SLJIT_MASHR){ static const s32 f[]={SLJIT_SET_CARRY,SLJIT_SET_OVERFLOW,SLJIT_SET_LESS,SLJIT_SET_SIG_GREATER,SLJIT_SET_UNORDERED}; return o|f[rn(5)]|(rn(2)?SLJIT_SET_Z:0); } /* fallthrough */
    case 1: if(b==SLJIT_ADD){ static const s32 f[]={SLJIT_SET_LESS,SLJIT_SET_GREATER,SLJIT_SET_SIG_LESS,SLJIT_SET_SIG_GREATER,SLJIT_SET_ATOMIC_STORED,SLJIT_SET_F_EQUAL}; return o|f[rn(6)]; }
      if(b==SLJIT_MUL) return o|(rn(2)?SLJIT_SET_Z:rn(2)?SLJIT_SET_CARRY:SLJIT_SET_LESS); if(b==SLJIT_ROTL||b==SLJIT_ROTR) return o|(rn(2)?SLJIT_SET_Z:SLJIT_SET_CARRY);
      if(b==SLJIT_ADDC||b==SLJIT_SUBC) return o|(rn(2)?SLJIT_SET_Z:rn(2)?SLJIT_SET_OVERFLOW:SLJIT_SET_LESS); if(b==SLJIT_SUB) return o|(rn(2)?SLJIT_SET_ATOMIC_STORED:SLJIT_SET_F_LESS); return o|SLJIT_SET_CARRY;
    default: return o|(rn(2)?SLJIT_SET_UNORDERED:SLJIT_SET_ORDERED_EQUAL); } }
  if(rn(4)==0) return o;
  if(b>=SLJIT_AND&&b<=SLJIT_MASHR) return o|SLJIT_SET_Z;
  if(b==SLJIT_ADD) return o|(rn(2)?SLJIT_SET_Z:0)|(rn(3)==0?SLJIT_SET_OVERFLOW:rn(2)?SLJIT_SET_CARRY:0);
  if(b==SLJIT_SUB){ static const s32 f[]={0,SLJIT_SET_LESS,SLJIT_SET_GREATER_EQUAL,SLJIT_SET_GREATER,SLJIT_SET_LESS_EQUAL,SLJIT_SET_SIG_LESS,SLJIT_SET_SIG_GREATER_EQUAL,SLJIT_SET_SIG_GREATER,SLJIT_SET_SIG_LESS_EQUAL,SLJIT_SET_OVERFLOW,SLJIT_SET_CARRY,SLJIT_SET_CARRY}; return o|(rn(2)?SLJIT_SET_Z:0)|f[rn(12)]; }
  if(b==SLJIT_ADDC||b==SLJIT_SUBC) return o|SLJIT_SET_CARRY; if(b==SLJIT_MUL) return o|SLJIT_SET_OVERFLOW;
  return o;
}
static s32 pick_op2(void){ for(;;){ s32 o=SLJIT_ADD+rn(SLJIT_ROTR-SLJIT_ADD+1); s32 w=rn(3)==0?SLJIT_32:0;
  if(o==SLJIT_ADDC||o==SLJIT_SUBC){ if(fv==SLJIT_CARRY){ if(take("carry of another width")) return o|(f32w?0:SLJIT_32); return o|(f32w?SLJIT_32:0); } if(fv!=-1&&take("carry is not set")) return o|w; continue; }
  return o|w; } }
static void op2after(s32 o){ fz=!!(o&SLJIT_SET_Z); fv=(o>>10)&0x3e; f32w=!!(o&SLJIT_32); }
static int fpu,simd,atom;
static s32 vtype(int*regsz,int*elem,int fl){ int rz=3+rn(4),e=rn(rz<4?rz:4); if(fl&&e<2) e=2; *regsz=rz; *elem=e; return (rz<<12)|(e<<18)|(fl?SLJIT_SIMD_FLOAT:0); }
static s32 okv(void){ s32 n=nvs<4?0:nvs&~1; if(n) return SLJIT_VR(rn(n/2)*2); return 0; }
static s32 V(void){ if(take("vector register not available")){ if(rn(2)&&nvs+nvv<SLJIT_NUMBER_OF_VECTOR_REGISTERS-2&&!HASF64SECOND) return SLJIT_VR0+nvs; return rn(2)?0:SLJIT_TMP_VREGISTER_BASE+SLJIT_NUMBER_OF_TEMPORARY_VECTOR_REGISTERS+20; } s32 r=okv(); if(!r) need=1; return r; }
static s32 entercall(C*c,int ctx)
{
  s32 o,s,v,fs,fvv,vs,vv,l,t,regarg,sc,sv; s32 save[6]={ns,nv,nfs,nfv,nvs,nvv}; s32 maxR=SLJIT_NUMBER_OF_REGISTERS,maxS=SLJIT_NUMBER_OF_SAVED_REGISTERS,maxF=SLJIT_NUMBER_OF_FLOAT_REGISTERS,maxFS=SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS,maxV=SLJIT_NUMBER_OF_VECTOR_REGISTERS,maxVS=SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS; s32 e; int k;
  s=rn(4)==0?(s32)rn(maxR+1):(s32)rn(maxR<7?maxR:7); v=rn(maxS+1); if(s+v>maxR) v=maxR-s; if(rn(6)==0&&s<=maxR-v) s=maxR-v;
  fs=rn(maxF+1); if(rn(2)) fs=rn(5); if(fs>maxF) fs=maxF; fvv=maxFS?rn(maxFS+1):0; if(fs+fvv>maxF) fvv=maxF-fs; if(fvv<0) fvv=0;
  vs=maxV>0?(s32)rn(maxV+1):0; vv=maxVS>0?(s32)rn(maxVS+1):0; if(vs+vv>maxV) vv=maxV-vs; if(rn(2)) vv=0;
  l=rn(4)==0?0:rn(3)==0?(s32)rn(5000):(s32)rn(200); if(rn(40)==0) l=SLJIT_MAX_LOCAL_SIZE;
  regarg=rn(4)==0; o=regarg?SLJIT_ENTER_REG_ARG:0; if(regarg&&rn(2)){ k=1+rn(3); if(k>v) k=v; o|=k; } if(CPUOPT&&rn(4)==0) o|=CPUOPT;
  sc=s|SLJIT_ENTER_FLOAT(fs)|SLJIT_ENTER_VECTOR(vs); sv=v|SLJIT_ENTER_FLOAT(fvv)|SLJIT_ENTER_VECTOR(vv);
  if(take("bad context")) switch(rn(12)){
    case 0: l=rn(2)?-1:SLJIT_MAX_LOCAL_SIZE+1; break; case 1: sc=(sc&~0xff)|(maxR+1+(s32)rn(2)); break; case 2: sv=(sv&~0xff)|(maxS+1); break; case 3: if(maxS<1){ l=-1; break; } sv=(sv&~0xff)|maxS; sc=(sc&~0xff)|(maxR-maxS+1); break;
    case 4: sc=(sc&~0xff00)|SLJIT_ENTER_FLOAT(maxF+1); break; case 5: sv=(sv&~0xff00)|SLJIT_ENTER_FLOAT(maxFS+1); break; case 6: sc=(sc&0xffff)|SLJIT_ENTER_VECTOR((maxV>0?maxV:0)+1); break; case 7: sv=(sv&0xffff)|SLJIT_ENTER_VECTOR((maxVS>0?maxVS:0)+1); break;
    case 8: if(rn(2)) sc|=1<<(24+rn(8)); else sv|=1<<(24+rn(8)); break;
    case 9: o=1+rn(3); break; /* KEEP without REG_ARG */ case 10: o|=rn(2)?0x8:rn(2)?0x100:0x20000; break;
    case 11: { k=1+rn(3); o=SLJIT_ENTER_REG_ARG|k; sv=(sv&~0xff)|(k-1); if(s+k-1>maxR) sc=(sc&~0xff)|1; break; } }
  else if(maxFS>0&&take("too many float registers")){ sv=(sv&~0xff00)|SLJIT_ENTER_FLOAT(maxFS); sc=(sc&~0xff00)|SLJIT_ENTER_FLOAT(maxF-maxFS+1); }
  else if(maxVS>0&&take("too many vector registers")){ sv=(sv&0xffff)|SLJIT_ENTER_VECTOR(maxVS); sc=(sc&0xffff)|SLJIT_ENTER_VECTOR(maxV-maxVS+1); }
  ns=s; nv=v; nfs=fs; nfv=fvv; nvs=vs; nvv=vv;
  for(k=0;k<300;k++){ t=rsig(regarg,0); if(sig_ok(t,regarg,0)) break; t=0; } if(!inval&&take("bad signature")){ for(k=0;k<300;k++){ t=rn(2)?mutsig(t):rsig(regarg&&rn(2),0); if(!sig_ok(t,!!(o&SLJIT_ENTER_REG_ARG),0)) break; } if(k==300){ inval=0; t=0; } }
  W("%s(opt=%#x,args=%#x,scratches=%#x,saveds=%#x,local=%d)",ctx?"set_context":"enter",(int)o,(int)sigdep(t),(int)sc,(int)sv,(int)l);
  e=ctx?sljit_set_context(c,o,t,sc,sv,l):sljit_emit_enter(c,o,t,sc,sv,l);
  if(inval){ ns=save[0]; nv=save[1]; nfs=save[2]; nfv=save[3]; nvs=save[4]; nvv=save[5]; return e; }
  loc=l; opts=o; rett=t&0xf; fnone(); return e;
}
static u8 __attribute__((aligned(8))) ibuf[32];
static s32 call1(C*c,int f)
{
  s32 o,r1,r2,r3,t; opd a,b,d; int rz,e;
#define GO do { if(need) return 0x7001; } while(0)
  switch(f){
  case F_OP0:
    if(take("bad op0")) switch(rn(3)){ case 0: o=badop(SLJIT_BREAKPOINT,SLJIT_SKIP_FRAMES_BEFORE_RETURN); o|=0; if((o&~SLJIT_32)>=SLJIT_BREAKPOINT&&(o&~SLJIT_32)<=SLJIT_SKIP_FRAMES_BEFORE_RETURN) o=SLJIT_SKIP_FRAMES_BEFORE_RETURN+1; break; case 1: { static const s32 x[]={SLJIT_BREAKPOINT,SLJIT_NOP,SLJIT_LMUL_UW,SLJIT_LMUL_SW,SLJIT_MEMORY_BARRIER,SLJIT_ENDBR}; o=x[rn(6)]|SLJIT_32; break; } default: if(ns<2){ static const s32 x[]={SLJIT_LMUL_UW,SLJIT_LMUL_SW,SLJIT_DIVMOD_UW,SLJIT_DIVMOD_SW,SLJIT_DIV_UW,SLJIT_DIV_SW|SLJIT_32,SLJIT_DIV_SW}; o=x[rn(7)]; why="op0 without R0, R1"; } else o=SLJIT_NOP|0x1000000; }
    else { static const s32 x[]={SLJIT_BREAKPOINT,SLJIT_NOP,SLJIT_LMUL_UW,SLJIT_LMUL_SW,SLJIT_DIVMOD_UW,SLJIT_DIVMOD_U32,SLJIT_DIVMOD_SW,SLJIT_DIVMOD_S32,SLJIT_DIV_UW,SLJIT_DIV_U32,SLJIT_DIV_SW,SLJIT_DIV_S32,SLJIT_MEMORY_BARRIER,SLJIT_ENDBR,SLJIT_SKIP_FRAMES_BEFORE_RETURN}; unsigned i=rn(15); if(ns<2&&i>=2&&i<=11) i=rn(2); o=x[i]; }
    W("op0(%#x)",(int)o); { s32 er=sljit_emit_op0(c,o); s32 q=o&0xff; if(!inval){ if(q>=SLJIT_LMUL_UW&&q<=SLJIT_DIV_SW) fnone(); else if(q==SLJIT_MEMORY_BARRIER||q==SLJIT_SKIP_FRAMES_BEFORE_RETURN) funk(); if(er==SLJIT_ERR_UNSUPPORTED&&q==SLJIT_MEMORY_BARRIER){ n_unsup++; return 0x7002; } } return er; }
  case F_OP1:
    o=SLJIT_MOV+rn(SLJIT_REV_S32-SLJIT_MOV+1); { int no32=o==SLJIT_MOV||o==SLJIT_MOV_U32||o==SLJIT_MOV_S32||o==SLJIT_MOV32||o==SLJIT_MOV_P||o==SLJIT_REV_U32||o==SLJIT_REV_S32;
      if(take("bad op1")) switch(rn(3)){ case 0: o=badop(SLJIT_MOV,SLJIT_REV_S32); if((o&~SLJIT_32)>=SLJIT_MOV&&(o&~SLJIT_32)<=SLJIT_REV_S32) o=SLJIT_REV_S32+1; break; case 1: if(no32){ o|=SLJIT_32; break; } /* fallthrough */ default: o|=rn(2)?SLJIT_SET_Z:rn(2)?SLJIT_SET_CARRY:SLJIT_SET_LESS; }
      else if(!no32&&rn(2)) o|=SLJIT_32; }
    d=D(); a=S(); GO; W("op1(%#x, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a)); { s32 er=sljit_emit_op1(c,o,d.p,d.w,a.p,a.w); if((o&0xff)>=SLJIT_CLZ) funk(); return er; }
  case F_OP2: case F_OP2U:
    o=pick_op2(); if(!inval&&take("bad op2")){ o=badop(SLJIT_ADD,SLJIT_ROTR); o&=~0x80000; if((o&0xff)>=SLJIT_ADD&&(o&0xff)<=SLJIT_ROTR&&!(o&0x10000000)) o=SLJIT_ROTR+1; } else o=op2flags(o);
    if(f==F_OP2U){ if(!inval&&!(o&(SLJIT_SET_Z|(0x3e<<10)))){ if(take("op2u without flags")){} else if((o&0xff)==SLJIT_ROTL||(o&0xff)==SLJIT_ROTR) need=1; else if((o&0xff)==SLJIT_MUL) o|=SLJIT_SET_OVERFLOW; else if((o&0xff)==SLJIT_ADDC||(o&0xff)==SLJIT_SUBC) o|=SLJIT_SET_CARRY; else o|=SLJIT_SET_Z; } }
    else d=D();
    a=S(); b=S(); GO;
    if(f==F_OP2){ W("op2(%#x, %#x,%ld, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a),X(b)); s32 er=sljit_emit_op2(c,o,d.p,d.w,a.p,a.w,b.p,b.w); op2after(o); return er; }
    W("op2u(%#x, %#x,%ld, %#x,%ld)",(int)o,X(a),X(b)); { s32 er=sljit_emit_op2u(c,o,a.p,a.w,b.p,b.w); op2after(o); return er; }
  case F_OP2R: o=SLJIT_MULADD|(rn(2)?SLJIT_32:0); if(take("bad op2r")) o=rn(3)==0?o|SLJIT_SET_Z:rn(2)?o+1:o-1; r1=R(); a=S(); b=S(); GO; W("op2r(%#x, %d, %#x,%ld, %#x,%ld)",(int)o,(int)r1,X(a),X(b)); { s32 er=sljit_emit_op2r(c,o,r1,a.p,a.w,b.p,b.w); fnone(); return er; }
  case F_SHIFTINTO: { static const s32 x[]={SLJIT_SHL,SLJIT_LSHR,SLJIT_MSHL,SLJIT_MLSHR}; o=x[rn(4)]|(rn(2)?SLJIT_32:0)|(rn(3)==0?SLJIT_SHIFT_INTO_NON_ZERO:0);
    if(take("bad shift_into")){ static const s32 y[]={SLJIT_ASHR,SLJIT_MASHR,SLJIT_ADD,SLJIT_ROTL,SLJIT_OR}; o=rn(2)?y[rn(5)]|(o&SLJIT_32):o|(rn(2)?SLJIT_SET_CARRY:0x1000); }
    r1=R(); r2=R(); r3=R(); if(!inval&&r1==r3){ if(take("dst equals src2")){} else need=1; } a=S(); GO; W("shift_into(%#x, %d,%d,%d, %#x,%ld)",(int)o,(int)r1,(int)r2,(int)r3,X(a)); s32 er=sljit_emit_shift_into(c,o,r1,r2,r3,a.p,a.w); funk(); return er; }
  case F_OPSRC: { s32 er; o=SLJIT_FAST_RETURN+rn(SLJIT_PREFETCH_ONCE-SLJIT_FAST_RETURN+1); if(take("bad op_src")){ o=badop(SLJIT_FAST_RETURN,SLJIT_PREFETCH_ONCE); a=S(); } else if(o==SLJIT_FAST_RETURN||o==SLJIT_SKIP_FRAMES_BEFORE_FAST_RETURN){ if(take("immediate source")){ a.p=SLJIT_IMM; a.w=rn(64); } else do a=S(); while(!inval&&a.p==SLJIT_IMM); } else { if(take("prefetch of a register")){ a.p=okreg(); a.w=0; if(!a.p||rn(3)==0) { a.p=SLJIT_IMM; a.w=16; } } else a=M(); }
    GO; W("op_src(%#x, %#x,%ld)",(int)o,X(a)); er=sljit_emit_op_src(c,o,a.p,a.w); if(o<SLJIT_PREFETCH_L1) fnone(); return er; }
  case F_OPDST: { s32 er; o=SLJIT_FAST_ENTER+rn(2); if(take("bad op_dst")) o=badop(SLJIT_FAST_ENTER,SLJIT_GET_RETURN_ADDRESS); d=D(); GO; W("op_dst(%#x, %#x,%ld)",(int)o,X(d)); er=sljit_emit_op_dst(c,o,d.p,d.w); if(o==SLJIT_FAST_ENTER) fnone(); return er; }
  case F_FOP1: { s32 er; do o=SLJIT_MOV_F64+rn(SLJIT_ABS_F64-SLJIT_MOV_F64+1); while(o==SLJIT_CMP_F64||(o>=SLJIT_CONV_SW_FROM_F64&&o<=SLJIT_CONV_F64_FROM_U32)); if(rn(2)) o|=SLJIT_32; if(take("bad fop1")){ o=rn(2)?SLJIT_ABS_F64+1:rn(2)?SLJIT_MOV_F64-1:o|(rn(2)?SLJIT_SET_Z:SLJIT_SET_F_LESS); }
    if((o&0xff)==SLJIT_CONV_F64_FROM_F32){ if(HASF64SECOND){} } d=FD(); a=FD(); GO; W("fop1(%#x, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a)); er=sljit_emit_fop1(c,o,d.p,d.w,a.p,a.w); if((o&0xff)!=SLJIT_MOV_F64) funk(); return er; }
  case F_FCMPOP: { s32 er,fl=SLJIT_F_EQUAL+2*rn((SLJIT_ORDERED_LESS_EQUAL-SLJIT_F_EQUAL)/2+1); o=SLJIT_CMP_F64|(rn(2)?SLJIT_32:0); if(take("bad flags of a float compare")){ static const s32 y[]={SLJIT_SET_Z,SLJIT_SET_CARRY,SLJIT_SET_LESS,SLJIT_SET_OVERFLOW,SLJIT_SET_SIG_LESS,SLJIT_SET_ATOMIC_STORED,SLJIT_SET_Z|SLJIT_SET_F_LESS}; o|=y[rn(7)]; } else o|=fl<<10;
    a=FD(); b=FD(); GO; W("fop1(%#x, %#x,%ld, %#x,%ld)",(int)o,X(a),X(b)); er=sljit_emit_fop1(c,o,a.p,a.w,b.p,b.w); fz=0; fv=fl; f32w=!!(o&SLJIT_32); return er; }
  case F_CONVFROM: { s32 er; o=(rn(2)?SLJIT_CONV_SW_FROM_F64:SLJIT_CONV_S32_FROM_F64)|(rn(2)?SLJIT_32:0); if(take("flags of a conversion")) o|=rn(2)?SLJIT_SET_Z:SLJIT_SET_CARRY; d=D(); a=FD(); GO; W("fop1(%#x, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a)); er=sljit_emit_fop1(c,o,d.p,d.w,a.p,a.w); funk(); return er; }
  case F_CONVTO: { s32 er; static const s32 x[]={SLJIT_CONV_F64_FROM_SW,SLJIT_CONV_F64_FROM_S32,SLJIT_CONV_F64_FROM_UW,SLJIT_CONV_F64_FROM_U32}; o=x[rn(4)]|(rn(2)?SLJIT_32:0); if(take("flags of a conversion")) o|=rn(2)?SLJIT_SET_Z:SLJIT_SET_CARRY; d=FD(); a=S(); GO; W("fop1(%#x, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a)); er=sljit_emit_fop1(c,o,d.p,d.w,a.p,a.w); funk(); return er; }
  case F_FOP2: { s32 er; o=(SLJIT_ADD_F64+rn(4))|(rn(2)?SLJIT_32:0); if(take("bad fop2")) o=rn(3)==0?SLJIT_DIV_F64+1:rn(2)?SLJIT_ADD_F64-1:o|SLJIT_SET_Z; d=FD(); a=FD(); b=FD(); GO; W("fop2(%#x, %#x,%ld, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a),X(b)); er=sljit_emit_fop2(c,o,d.p,d.w,a.p,a.w,b.p,b.w); funk(); return er; }
  case F_FOP2R: { s32 er; o=SLJIT_COPYSIGN_F64|(rn(2)?SLJIT_32:0); if(take("bad fop2r")) o=rn(3)==0?o+1:rn(2)?o-1:o|(rn(2)?SLJIT_SET_Z:SLJIT_SET_F_LESS); r1=FR(); a=FD(); b=FD(); GO; W("fop2r(%#x, %d, %#x,%ld, %#x,%ld)",(int)o,(int)r1,X(a),X(b)); er=sljit_emit_fop2r(c,o,r1,a.p,a.w,b.p,b.w); funk(); return er; }
  case F_FSET32: { s32 er; r1=FR(); GO; W("fset32(%d)",(int)r1); er=sljit_emit_fset32(c,r1,1.5f*(float)rn(9)); funk(); return er; }
  case F_FSET64: { s32 er; r1=FR(); GO; W("fset64(%d)",(int)r1); er=sljit_emit_fset64(c,r1,1.25*(double)rn(9)); funk(); return er; }
  case F_FCOPY: { s32 er; static const s32 x[]={SLJIT_COPY_TO_F64,SLJIT_COPY32_TO_F32,SLJIT_COPY_FROM_F64,SLJIT_COPY32_FROM_F32}; o=x[rn(4)]; r1=FR(); r2=R();
    if(!inval&&take("bad fcopy")) switch(rn(4)){ case 0: o=(o&SLJIT_32)|(rn(2)?3:0); break; case 1: o|=SLJIT_SET_Z; break; case 2: if(rn(2)) r2=SLJIT_REG_PAIR(r2,SLJIT_SP); else r2=SLJIT_REG_PAIR(rn(2)?SLJIT_SP:0x7e,okreg()?okreg():SLJIT_R0); break; default: if(IS64||(o&SLJIT_32)){ r2=SLJIT_REG_PAIR(r2,okreg()); if(r2==okreg()) {} } else { o=SLJIT_COPY_FROM_F64; r2=SLJIT_REG_PAIR(r2,r2); } }
    else if(!inval&&!IS64&&!(o&SLJIT_32)&&rn(2)){ s32 q=okreg(); if(q&&q!=r2) r2=SLJIT_REG_PAIR(r2,q); }
    GO; W("fcopy(%#x, %d, %#x)",(int)o,(int)r1,(int)r2); er=sljit_emit_fcopy(c,o,r1,r2); funk(); return er; }
  case F_LABEL: { struct sljit_label*l; W("label"); l=sljit_emit_label(c); fnone(); if(l){ while(npend) sljit_set_label(pend[--npend],l); } return PR(c,l); }
  case F_ALABEL: { struct sljit_label*l; o=rn(SLJIT_LABEL_ALIGN_16+1); if(take("bad alignment")) o=rn(2)?SLJIT_LABEL_ALIGN_16+1:rn(2)?-1:SLJIT_LABEL_ALIGN_16+16; W("aligned_label(%d)",(int)o); l=sljit_emit_aligned_label(c,o,NULL); fnone(); return PR(c,l); }
  case F_JUMP: { struct sljit_jump*j; t=rn(3)==0?-1:cond(); if(t<0) t=rn(4)==0?SLJIT_FAST_CALL:SLJIT_JUMP; if(rn(4)==0) t|=SLJIT_REWRITABLE_JUMP; if(take("bad jump type")){ static const s32 y[]={SLJIT_CALL,SLJIT_CALL_REG_ARG,SLJIT_CALL_REG_ARG+1,0xff,SLJIT_JUMP|0x100,SLJIT_JUMP|0x20000,SLJIT_JUMP|0x200,-1}; t=y[rn(8)]; }
    W("jump(%#x)",(int)t); j=sljit_emit_jump(c,t); if(!inval&&(t&0xfe)==SLJIT_CARRY&&fv==SLJIT_CARRY){ fv=-1; if(fz>0) fz=-1; } return J(c,j); }
  case F_CALL: case F_ICALL: { int k; s32 er; o=rn(4)==0?SLJIT_CALL_REG_ARG:SLJIT_CALL; for(k=0;k<200;k++){ t=rsig(0,1); if(sig_ok(t,0,1)) break; t=0; } if(take("bad signature of a call")){ { s32 sv=nfs; if(nvs>nfs) nfs=nvs; /* float and vector registers overlap on most targets: left open */ for(k=0;k<300;k++){ t=rn(2)?mutsig(t):rsig(0,1)|(rn(2)?0x80:0); if(!sig_ok(t,0,1)) break; } nfs=sv; } if(k==300){ inval=0; t=0; } }
    if(rn(5)==0){ s32 ra=!!(opts&SLJIT_ENTER_REG_ARG); if(take("tail call")){ if(rn(2)) { o=(ra?SLJIT_CALL:SLJIT_CALL_REG_ARG)|SLJIT_CALL_RETURN; t=(t&~0xf)|rett; why="kind of a tail call"; } else { o=(ra?SLJIT_CALL_REG_ARG:SLJIT_CALL)|SLJIT_CALL_RETURN; t=(t&~0xf)|((rett+1+rn(5))%6); why="return type of a tail call"; } if((t&7)==rett&&(o&0xff)==(ra?SLJIT_CALL_REG_ARG:SLJIT_CALL)) t=(t&~0xf)|((rett+1)%6); }
      else if(!inval){ o=(ra?SLJIT_CALL_REG_ARG:SLJIT_CALL)|SLJIT_CALL_RETURN; t=(t&~0xf)|rett; if(!sig_ok(t,0,1)) o&=~SLJIT_CALL_RETURN,t=0; } }
    if(f==F_CALL){ struct sljit_jump*j; if(rn(3)==0) o|=SLJIT_REWRITABLE_JUMP; if(take("bad call type")){ static const s32 y[]={SLJIT_JUMP,SLJIT_FAST_CALL,SLJIT_CALL_REG_ARG+1,SLJIT_CALL|0x100,SLJIT_CALL|0x40000,-1,0}; o=y[rn(7)]; } W("call(%#x,args=%#x)",(int)o,(int)t); j=sljit_emit_call(c,o,t); fnone(); return J(c,j); }
    if(take("bad icall type")){ static const s32 y[]={SLJIT_JUMP,SLJIT_FAST_CALL,SLJIT_CALL_REG_ARG+1,SLJIT_CALL|0x100,SLJIT_CALL|SLJIT_REWRITABLE_JUMP,-1}; o=y[rn(6)]; }
    a=S(); GO; W("icall(%#x,args=%#x, %#x,%ld)",(int)o,(int)t,X(a)); er=sljit_emit_icall(c,o,t,a.p,a.w); fnone(); return er; }
  case F_CMP: { struct sljit_jump*j; t=SLJIT_EQUAL+rn(SLJIT_SIG_LESS_EQUAL+1); if(rn(2)) t|=SLJIT_32; if(rn(4)==0) t|=SLJIT_REWRITABLE_JUMP; if(take("bad cmp type")){ static const s32 y[]={SLJIT_OVERFLOW,SLJIT_CARRY,SLJIT_F_EQUAL,SLJIT_JUMP,SLJIT_EQUAL|0x200,SLJIT_LESS|0x20000,-1}; t=y[rn(7)]; } a=S(); b=S(); GO; W("cmp(%#x, %#x,%ld, %#x,%ld)",(int)t,X(a),X(b)); j=sljit_emit_cmp(c,t,a.p,a.w,b.p,b.w); fnone(); return J(c,j); }
  case F_FCMP: { struct sljit_jump*j; t=SLJIT_F_EQUAL+rn(SLJIT_ORDERED_LESS_EQUAL-SLJIT_F_EQUAL+1); if(rn(2)) t|=SLJIT_32; if(rn(4)==0) t|=SLJIT_REWRITABLE_JUMP; if(take("bad fcmp type")){ static const s32 y[]={SLJIT_EQUAL,SLJIT_F_EQUAL-1,SLJIT_CARRY,SLJIT_JUMP,SLJIT_ORDERED_LESS_EQUAL+1,SLJIT_F_EQUAL|0x200,-1}; t=y[rn(7)]; } a=FD(); b=FD(); GO; W("fcmp(%#x, %#x,%ld, %#x,%ld)",(int)t,X(a),X(b)); j=sljit_emit_fcmp(c,t,a.p,a.w,b.p,b.w); fnone(); fv=-1; return J(c,j); }
  case F_OP2CMPZ: { struct sljit_jump*j; s32 q; do { o=SLJIT_ADD+rn(SLJIT_MASHR-SLJIT_ADD+1); } while(o==SLJIT_ADDC||o==SLJIT_SUBC||o==SLJIT_MUL); if(rn(2)) o|=SLJIT_32; if(take("bad op2cmpz")){ static const s32 y[]={SLJIT_MUL,SLJIT_ROTL,SLJIT_ROTR,SLJIT_ROTR+1,SLJIT_MOV,SLJIT_AND|SLJIT_SET_CARRY,SLJIT_ADD|SLJIT_SET_LESS,SLJIT_ADDC,SLJIT_SUBC}; o=y[rn(9)]; } else { o=op2flags(o)&~SLJIT_SET_Z; }
    q=o; if(!inval||1) { if(rn(2)) o|=SLJIT_JUMP_IF_ZERO; if(rn(4)==0) o|=SLJIT_REWRITABLE_JUMP; } d=D(); a=S(); b=S(); GO; W("op2cmpz(%#x, %#x,%ld, %#x,%ld, %#x,%ld)",(int)o,X(d),X(a),X(b)); j=sljit_emit_op2cmpz(c,o,d.p,d.w,a.p,a.w,b.p,b.w); fz=0; fv=(q>>10)&0x3e; f32w=!!(q&SLJIT_32); if(fv) fv=-1; return J(c,j); }
  case F_IJUMP: t=rn(3)==0?SLJIT_FAST_CALL:SLJIT_JUMP; if(take("bad ijump type")){ static const s32 y[]={SLJIT_EQUAL,SLJIT_CALL,SLJIT_JUMP|SLJIT_REWRITABLE_JUMP,SLJIT_JUMP-1,SLJIT_JUMP|0x100}; t=y[rn(5)]; } a=S(); GO; W("ijump(%#x, %#x,%ld)",(int)t,X(a)); return sljit_emit_ijump(c,t,a.p,a.w);
  case F_OPFLAGS: { s32 er; static const s32 x[]={SLJIT_MOV,SLJIT_MOV32,SLJIT_AND,SLJIT_OR,SLJIT_XOR,SLJIT_AND32,SLJIT_OR32,SLJIT_XOR32}; unsigned k=rn(8); t=cond(); if(t<0) return 0x7001; o=x[k]; if(k>=2&&rn(2)) o|=SLJIT_SET_Z;
    if(take("bad op_flags")) switch(rn(3)){ case 0: { static const s32 y[]={SLJIT_MOV_U8,SLJIT_MOV_P,SLJIT_MOV_S32,SLJIT_ADD,SLJIT_SUB,SLJIT_SHL,SLJIT_CLZ,SLJIT_MOV_U32}; o=y[rn(8)]; break; } case 1: o|=rn(2)?SLJIT_SET_CARRY:SLJIT_SET_LESS; break; default: t=rn(2)?SLJIT_JUMP:rn(2)?-1:t|0x100; }
    d=D(); GO; W("op_flags(%#x, %#x,%ld, %#x)",(int)o,X(d),(int)t); er=sljit_emit_op_flags(c,o,d.p,d.w,t); if((o&0xff)>=SLJIT_ADD){ fz=!!(o&SLJIT_SET_Z); fv=0; f32w=!!(o&SLJIT_32); } return er; }
  case F_SELECT: { s32 er; t=cond(); if(t<0) return 0x7001; if(!inval&&take("bad select type")) t=rn(2)?SLJIT_JUMP:rn(2)?t|0x200:t|0x10000; if(rn(2)) t|=SLJIT_32; r1=R(); a=S(); r2=R(); GO; W("select(%#x, %d, %#x,%ld, %d)",(int)t,(int)r1,X(a),(int)r2); er=sljit_emit_select(c,t,r1,a.p,a.w,r2); if((t&0xfe)==SLJIT_CARRY&&fv==SLJIT_CARRY){ fv=-1; if(fz>0) fz=-1; } return er; }
  case F_FSELECT: { s32 er; t=cond(); if(t<0) return 0x7001; if(!inval&&take("bad fselect type")) t=rn(2)?SLJIT_JUMP:rn(2)?t|0x200:t|0x10000; if(rn(2)) t|=SLJIT_32; r1=FR(); a=FD(); r2=FR(); GO; W("fselect(%#x, %d, %#x,%ld, %d)",(int)t,(int)r1,X(a),(int)r2); er=sljit_emit_fselect(c,t,r1,a.p,a.w,r2); if((t&0xfe)==SLJIT_CARRY&&fv==SLJIT_CARRY){ fv=-1; if(fz>0) fz=-1; } return er; }
  case F_MEM: { static const s32 al[]={SLJIT_MEM_UNALIGNED,SLJIT_MEM_ALIGNED_16,SLJIT_MEM_ALIGNED_32}; int pair=rn(3)==0; t=pair?SLJIT_MOV:SLJIT_MOV+(s32)rn(9); r1=R();
    if(pair){ r2=R(); if(!inval&&r1==r2){ if(take("pair of the same register")){} else need=1; } if(r1>0&&r1<0x7f&&r2>0&&r2<0x7f) r1=SLJIT_REG_PAIR(r1,r2); else if(!inval) need=1; else if(r2<=0||r2>=0x7f) { r1=SLJIT_REG_PAIR(okreg()?okreg():SLJIT_R0,0x7e); } if(rn(2)) t|=al[rn(3)]; }
    else { if(t==SLJIT_MOV||t==SLJIT_MOV_P) t|=al[rn(IS64?3:2)]; else if(t==SLJIT_MOV_U32||t==SLJIT_MOV_S32||t==SLJIT_MOV32) t|=al[rn(2)]; else { t|=SLJIT_MEM_UNALIGNED; if(t!=(SLJIT_MOV|SLJIT_MEM_UNALIGNED)&&rn(3)==0) t|=SLJIT_32; } }
    if(rn(2)) t|=SLJIT_MEM_STORE;
    if(!inval&&take("bad mem type")) switch(rn(5)){ case 0: t|=SLJIT_MEM_UNALIGNED|SLJIT_MEM_ALIGNED_16; break; case 1: t=(t&~0x1c00)|SLJIT_MEM_ALIGNED_16|SLJIT_MEM_ALIGNED_32; break; case 2: t=(t&~0xff)|(rn(2)?SLJIT_MOV_P+1:SLJIT_MOV-1); break; case 3: if(pair){ t=(t&~0xff)|(rn(2)?SLJIT_MOV_U8:SLJIT_MOV_P); break; } /* fallthrough */ default: t|=rn(2)?0x2000:0x20000; }
    a=M(); GO; W("mem(%#x, %#x, %#x,%ld)",(int)t,(int)r1,X(a)); return sljit_emit_mem(c,t,r1,a.p,a.w); }
  case F_MEMUP: { s32 er; t=(SLJIT_MOV+rn(9))|(rn(2)?SLJIT_MEM_STORE:0)|(rn(2)?SLJIT_MEM_POST:0)|(rn(3)==0?SLJIT_MEM_SUPP:0); if(take("bad mem_update type")) t=rn(2)?(t&~0xff)|(rn(2)?SLJIT_MOV_P+1:SLJIT_MOV-1):t|(rn(2)?SLJIT_MEM_ALIGNED_32:0x20000); r1=R(); if(!inval&&take("register pair")){ r1=SLJIT_REG_PAIR(r1,okreg()); }
    if(!inval&&take("bad base")) { switch(rn(3)){ case 0: a.p=SLJIT_MEM0(); a.w=rn(64); break; case 1: if(loc>0){ a.p=SLJIT_MEM1(SLJIT_SP); a.w=rn(loc); break; } /* fallthrough */ default: a.p=SLJIT_MEM1(r1); a.w=8; if(VIRT(r1)||r1<=0||r1>=0x7f){ a.p=SLJIT_MEM0(); } } }
    else { a=M(); if(!inval&&((a.p&0x7f)==0||(a.p&0x7f)==SLJIT_SP||(a.p&0x7f)==(r1&0x7f))) need=1; }
    GO; W("mem_update(%#x, %#x, %#x,%ld)",(int)t,(int)r1,X(a)); er=sljit_emit_mem_update(c,t,r1,a.p,a.w); if(er==SLJIT_ERR_UNSUPPORTED){ n_unsup++; return 0x7002; } return er; }
  case F_FMEM: { t=SLJIT_MOV_F64|(rn(2)?SLJIT_32:0)|(rn(2)?SLJIT_MEM_STORE:0); t|=rn(2)?SLJIT_MEM_UNALIGNED:(rn(2)||(t&SLJIT_32))?SLJIT_MEM_ALIGNED_16:SLJIT_MEM_ALIGNED_32; if(take("bad fmem type")) switch(rn(4)){ case 0: t|=SLJIT_MEM_UNALIGNED|SLJIT_MEM_ALIGNED_16; break; case 1: t|=SLJIT_MEM_ALIGNED_16|SLJIT_MEM_ALIGNED_32; break; case 2: t=(t&~0xff)|(rn(2)?SLJIT_MOV:SLJIT_MOV_F64+1); break; default: t|=0x2000; } r1=FR(); a=M(); GO; W("fmem(%#x, %d, %#x,%ld)",(int)t,(int)r1,X(a)); return sljit_emit_fmem(c,t,r1,a.p,a.w); }
  case F_FMEMUP: { s32 er; t=SLJIT_MOV_F64|(rn(2)?SLJIT_32:0)|(rn(2)?SLJIT_MEM_STORE:0)|(rn(2)?SLJIT_MEM_POST:0)|(rn(3)==0?SLJIT_MEM_SUPP:0); if(take("bad fmem_update type")) t=rn(2)?(t&~0xff)|(rn(2)?SLJIT_MOV:SLJIT_MOV_F64+1):t|(rn(2)?SLJIT_MEM_ALIGNED_32:0x20000); r1=FR();
    if(!inval&&take("bad base")) { if(rn(2)&&loc>0){ a.p=SLJIT_MEM1(SLJIT_SP); a.w=rn(loc); } else { a.p=SLJIT_MEM0(); a.w=rn(64); } } else { a=M(); if(!inval&&((a.p&0x7f)==0||(a.p&0x7f)==SLJIT_SP)) need=1; }
    GO; W("fmem_update(%#x, %#x, %#x,%ld)",(int)t,(int)r1,X(a)); er=sljit_emit_fmem_update(c,t,r1,a.p,a.w); if(er==SLJIT_ERR_UNSUPPORTED){ n_unsup++; return 0x7002; } return er; }
  case F_SMOV: case F_SREP: case F_SLMOV: case F_SLREP: case F_SEXT: case F_SSIGN: case F_SOP2: { s32 er=0; int fl=rn(3)==0; s32 lane=0; t=vtype(&rz,&e,fl); if(rn(4)==0) t|=SLJIT_SIMD_TEST; o=0;
    if(take("bad vector size")) { t&=~(0x3f<<12); t|=(rn(2)?rn(3):7+rn(50))<<12; }
    switch(f){
    case F_SMOV: if(rn(2)) t|=SLJIT_SIMD_STORE; if(rn(2)){ a.p=okv(); a.w=0; if(!a.p) need=1; if(take("alignment of a register")) t|=(1+rn(rz))<<24; } else { a=M(); if(take("alignment larger than the vector")) t|=(rz+1+rn(3))<<24; else if(rn(2)) t|=rn(rz+1)<<24; } if(take("bad simd flags")) t|=rn(2)?0x2:(s32)0x80000000; if(!inval&&take("element larger than the vector")) t=(t&~(0x3f<<18))|((rz+1+rn(3))<<18); r1=V(); GO; W("simd_mov(%#x, %d, %#x,%ld)",(int)t,(int)r1,X(a)); er=sljit_emit_simd_mov(c,t,r1,a.p,a.w); break;
    case F_SREP: if(take("bad simd flags")) t|=rn(2)?SLJIT_SIMD_STORE:0x2; if(!inval&&take("element not smaller than the vector")) t=(t&~(0x3f<<18))|((rz+rn(3))<<18); r1=V(); if(fl){ if(rn(4)==0){ a.p=SLJIT_IMM; a.w=0; if(take("float immediate")) a.w=1+rn(9); } else a=FD(); if(a.p==SLJIT_IMM&&a.w==0&&inval&&!strcmp(why,"bad float operand")) a.w=5; } else a=S(); GO; W("simd_replicate(%#x, %d, %#x,%ld)",(int)t,(int)r1,X(a)); er=sljit_emit_simd_replicate(c,t,r1,a.p,a.w); break;
    case F_SLMOV: { int st=rn(2); if(st) t|=SLJIT_SIMD_STORE; else if(rn(2)) t|=SLJIT_SIMD_LANE_ZERO; if(!fl&&st&&rn(2)) t|=SLJIT_SIMD_LANE_SIGNED; if(!fl&&e<=2&&rn(2)) t|=SLJIT_32;
      if(take("bad lane flags")) switch(rn(4)){ case 0: t|=SLJIT_SIMD_STORE|SLJIT_SIMD_LANE_ZERO; break; case 1: t=(t&~SLJIT_SIMD_STORE)|SLJIT_SIMD_LANE_SIGNED; break; case 2: t|=SLJIT_SIMD_FLOAT|SLJIT_32; break; default: t|=1<<24; }
      lane=rn(1u<<(rz-e)); if(take("bad lane")) lane=rn(2)?-1:(1<<(rz-e)); r1=V(); if(fl) a=FD(); else if(st) a=D(); else a=S(); GO; W("simd_lane_mov(%#x, %d,%d, %#x,%ld)",(int)t,(int)r1,(int)lane,X(a)); er=sljit_emit_simd_lane_mov(c,t,r1,lane,a.p,a.w); break; }
    case F_SLREP: lane=rn(1u<<(rz-e)); if(take("bad lane")) lane=rn(2)?-1:(1<<(rz-e)); if(take("bad simd flags")) t|=rn(2)?SLJIT_SIMD_STORE:0x2; r1=V(); r2=V(); GO; W("simd_lane_replicate(%#x, %d, %d,%d)",(int)t,(int)r1,(int)r2,(int)lane); er=sljit_emit_simd_lane_replicate(c,t,r1,r2,lane); break;
    case F_SEXT: { int e2; if(fl){ e=2; e2=3; } else { e=rn(3); e2=e+1+rn(3-e); } t=(t&~(0x3f<<18))|(e<<18); if(e2>=rz){ need=1; break; } t|=e2<<24; if(!fl&&rn(2)) t|=SLJIT_SIMD_EXTEND_SIGNED; if(take("bad extend flags")) switch(rn(3)){ case 0: t|=SLJIT_SIMD_STORE; break; case 1: t=(t&~(0x3f<<24))|(e<<24); break; default: t=(t&~(0x3f<<24))|(rz<<24); } r1=V(); if(rn(2)){ a.p=okv(); a.w=0; if(!a.p) need=1; } else a=M(); GO; W("simd_extend(%#x, %d, %#x,%ld)",(int)t,(int)r1,X(a)); er=sljit_emit_simd_extend(c,t,r1,a.p,a.w); break; }
    case F_SSIGN: t|=SLJIT_SIMD_STORE; if(rn(2)) t|=SLJIT_32; if(take("bad sign flags")) t=rn(2)?t&~SLJIT_SIMD_STORE:t|0x2; r1=V(); d=D(); GO; W("simd_sign(%#x, %d, %#x,%ld)",(int)t,(int)r1,X(d)); er=sljit_emit_simd_sign(c,t,r1,d.p,d.w); break;
    default: o=SLJIT_SIMD_OP2_AND+rn(3); if(rn(4)==0){ o=SLJIT_SIMD_OP2_SHUFFLE; t&=~((0x3f<<18)|SLJIT_SIMD_FLOAT); if(take("shuffle of elements")) t|=(1+rn(2))<<18; } else if(take("bad op")) o=rn(2)?0:SLJIT_SIMD_OP2_SHUFFLE+1; t|=o; if(rn(2)){ a.p=okv(); a.w=0; if(!a.p) need=1; if(take("alignment of a register")) t|=(1+rn(rz))<<24; } else { a=M(); if(take("alignment larger than the vector")) t|=(rz+1+rn(3))<<24; else if(rn(2)) t|=rn(rz+1)<<24; } if(!inval&&take("bad simd flags")) t|=0x10; if(!inval&&(t&0x3f)!=SLJIT_SIMD_OP2_SHUFFLE&&take("element larger than the vector")) t=(t&~(0x3f<<18))|((rz+1+rn(3))<<18); r1=V(); r2=V(); GO; W("simd_op2(%#x, %d, %d, %#x,%ld)",(int)t,(int)r1,(int)r2,X(a)); er=sljit_emit_simd_op2(c,t,r1,r2,a.p,a.w); break; }
    GO; if(er==SLJIT_ERR_UNSUPPORTED){ n_unsup++; return 0x7002; } return er; }
  case F_ALOAD: case F_ASTORE: { s32 er,mr; o=SLJIT_MOV+rn(9); if((o>=SLJIT_MOV_U8&&o<=SLJIT_MOV_S16)&&rn(2)) o|=SLJIT_32; if(rn(4)==0) o|=SLJIT_ATOMIC_USE_CAS; else if(rn(4)==0) o|=SLJIT_ATOMIC_USE_LS; if(rn(3)==0) o|=SLJIT_ATOMIC_TEST;
    if(take("bad atomic op")) switch(rn(4)){ case 0: o=(o&~0x1ff)|(rn(2)?SLJIT_MOV_P+1:SLJIT_MOV-1); break; case 1: o|=SLJIT_ATOMIC_USE_CAS|SLJIT_ATOMIC_USE_LS; break; case 2: { static const s32 y[]={SLJIT_MOV,SLJIT_MOV_U32,SLJIT_MOV_S32,SLJIT_MOV32,SLJIT_MOV_P}; o=(o&~0x1ff)|y[rn(5)]|SLJIT_32; break; } default: o|=0x100000; }
    r1=R(); mr=baser(); if(!mr) need=1; if(take("bad address register")){ mr=badreg(); if(VIRT(SLJIT_R3)&&ns>3&&rn(2)) mr=SLJIT_R3; }
    if(f==F_ALOAD){ GO; W("atomic_load(%#x, %d,%d)",(int)o,(int)r1,(int)mr); er=sljit_emit_atomic_load(c,o,r1,mr); funk(); }
    else { int st=0; r2=R(); if(!inval&&r1==r2&&!(o&SLJIT_ATOMIC_USE_LS)){ if(take("source equals temporary")){} else need=1; } if(rn(2)&&!inval){ o|=SLJIT_SET_ATOMIC_STORED; st=1; } if(!inval&&take("bad flag of an atomic store")) o=(o&~(0x3f<<10))|(rn(2)?SLJIT_SET_CARRY:rn(2)?SLJIT_SET_LESS:SLJIT_SET_OVERFLOW); GO; W("atomic_store(%#x, %d,%d,%d)",(int)o,(int)r1,(int)mr,(int)r2); er=sljit_emit_atomic_store(c,o,r1,mr,r2); if(er==SLJIT_SUCCESS&&!(o&SLJIT_ATOMIC_TEST)){ fz=0; fv=st?SLJIT_ATOMIC_STORED:0; f32w=!!(o&SLJIT_32); } else { fz=fv=-1; } }
    if(er==SLJIT_ERR_UNSUPPORTED){ n_unsup++; return 0x7002; } return er; }
  case F_LOCBASE: { s32 er; d=D(); GO; a.w=wide(); W("local_base(%#x,%ld, %ld)",X(d),(long)a.w); er=sljit_get_local_base(c,d.p,d.w,a.w); funk(); return er; }
  case F_CONST: { static const s32 x[]={SLJIT_MOV,SLJIT_MOV32,SLJIT_MOV_S32,SLJIT_MOV_U8,SLJIT_MOV32_U8}; struct sljit_const*k; o=x[rn(5)]; if(take("bad const")){ static const s32 y[]={SLJIT_MOV_U16,SLJIT_MOV_S8,SLJIT_MOV_U32,SLJIT_MOV_P,SLJIT_ADD,SLJIT_MOV|SLJIT_SET_Z,SLJIT_MOV_U8|SLJIT_SET_Z}; o=y[rn(7)]; } d=D(); GO; a.w=(o&0xff)==SLJIT_MOV_U8?(sw)rn(256):wide(); W("const(%#x, %#x,%ld)",(int)o,X(d)); k=sljit_emit_const(c,o,d.p,d.w,a.w); return PR(c,k); }
  case F_OPADDR: { struct sljit_jump*j; o=rn(3); if(take("bad op_addr")) o=rn(2)?3:-1; d=D(); GO; W("op_addr(%d, %#x,%ld)",(int)o,X(d)); j=sljit_emit_op_addr(c,o,d.p,d.w); return J(c,j); }
  case F_CUSTOM: { u8*p=ibuf; sljit_u32 z; int x86=0; 
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
    x86=1; z=1+rn(15); p=ibuf+rn(8); if(take("bad custom")) switch(rn(3)){ case 0: z=0; break; case 1: z=16+rn(3); break; default: p=NULL; }
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
    z=rn(2)?2:4; p=z==2?ibuf+2*rn(4):ibuf+4*rn(2); if(take("bad custom")) switch(rn(5)){ case 0: z=3; break; case 1: z=6; p=ibuf; break; case 2: p=z==2?ibuf+1:ibuf+2; break; case 3: z=0; break; default: p=NULL; }
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
    z=2+2*rn(3); if(take("bad custom")) switch(rn(4)){ case 0: z=3; break; case 1: z=8; break; case 2: z=0; break; default: p=NULL; }
#else
    z=4; p=ibuf+4*rn(2); if(take("bad custom")) switch(rn(5)){ case 0: z=2; break; case 1: z=8; break; case 2: z=0; break; case 3: p=ibuf+1+rn(3); break; default: p=NULL; }
#endif
    (void)x86; W("custom(%s%d, %u)",p?"buf+":"NULL ",p?(int)(p-ibuf):0,(unsigned)z); { s32 er=sljit_emit_op_custom(c,p,z); fnone(); return er; } }
  case F_SETFLAGS: W("set_current_flags"); if(rn(2)){ o=SLJIT_CURRENT_FLAGS_SUB|SLJIT_CURRENT_FLAGS_COMPARE|SLJIT_SET_Z|SLJIT_SET_LESS; fz=1; fv=SLJIT_LESS; f32w=0; } else { o=SLJIT_CURRENT_FLAGS_ADD|SLJIT_SET_Z|SLJIT_SET_CARRY; fz=1; fv=SLJIT_CARRY; f32w=0; } sljit_set_current_flags(c,o); return sljit_get_compiler_error(c);
  case F_RETVOID: if(rett!=SLJIT_ARG_TYPE_RET_VOID){ if(!take("return_void in a function with a result")) return 0x7001; } W("return_void"); { s32 er=sljit_emit_return_void(c); funk(); return er; }
  case F_RET: { s32 er; static const s32 w[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32}; static const s32 n[]={SLJIT_MOV32,SLJIT_MOV32_U8,SLJIT_MOV32_S8,SLJIT_MOV32_U16,SLJIT_MOV32_S16};
    if(take("bad return")){ static const s32 y[]={SLJIT_MOV,SLJIT_MOV32,SLJIT_MOV_P,SLJIT_MOV_F64,SLJIT_MOV_F32,SLJIT_CLZ,SLJIT_NEG_F64,SLJIT_MOV32_U8,SLJIT_MOV_S16,SLJIT_ADD,SLJIT_MOV_U32|SLJIT_32}; int k; for(k=0;k<50;k++){ o=y[rn(11)]; if(rett==SLJIT_ARG_TYPE_W&&(o==SLJIT_MOV||o==SLJIT_MOV_S16)) continue; if(rett==SLJIT_ARG_TYPE_32&&(o==SLJIT_MOV32||o==SLJIT_MOV32_U8)) continue; if(rett==SLJIT_ARG_TYPE_P&&o==SLJIT_MOV_P) continue; if(rett==SLJIT_ARG_TYPE_F64&&o==SLJIT_MOV_F64) continue; if(rett==SLJIT_ARG_TYPE_F32&&o==SLJIT_MOV_F32) continue; break; } a=(o&0xff)>=SLJIT_MOV_F64?FD():S(); }
    else switch(rett){ case SLJIT_ARG_TYPE_W: o=w[rn(IS64?7:5)]; a=S(); break; case SLJIT_ARG_TYPE_32: o=n[rn(5)]; a=S(); break; case SLJIT_ARG_TYPE_P: o=SLJIT_MOV_P; a=S(); break; case SLJIT_ARG_TYPE_F64: o=SLJIT_MOV_F64; a=FD(); break; case SLJIT_ARG_TYPE_F32: o=SLJIT_MOV_F32; a=FD(); break; default: return 0x7001; }
    GO; W("return(%#x, %#x,%ld)",(int)o,X(a)); er=sljit_emit_return(c,o,a.p,a.w); fnone(); return er; }
  case F_RETTO: { s32 er; a=S(); GO; W("return_to(%#x,%ld)",X(a)); er=sljit_emit_return_to(c,a.p,a.w); funk(); return er; }
  case F_SETCTX: return entercall(c,1);
  default: return entercall(c,0);
  }
}
static s32 w32(void){ switch(rn(4)){ case 0: return (s32)rn(256); case 1: return (s32)rnd(); case 2: return SLJIT_MEM1(rn(0x80)); default: return -1-(s32)rn(20); } }
static void sticky(C*c,const char*first)
{
  int i; for(i=0;i<8;i++){ s32 e=SLJIT_ERR_BAD_ARGUMENT; void*p=NULL; const char*n=""; int f=rn(34);
#define E(x) n=#x; e=x; break
#define P(x) n=#x; p=(void*)(x); break
    switch(f){ case 0: E(sljit_emit_op0(c,w32())); case 1: E(sljit_emit_op1(c,w32(),w32(),wide(),w32(),wide())); case 2: E(sljit_emit_op2(c,w32(),w32(),wide(),w32(),wide(),w32(),wide())); case 3: E(sljit_emit_op2u(c,w32(),w32(),wide(),w32(),wide())); case 4: E(sljit_emit_op2r(c,w32(),w32(),w32(),wide(),w32(),wide())); case 5: E(sljit_emit_shift_into(c,w32(),w32(),w32(),w32(),w32(),wide()));
      case 6: E(sljit_emit_op_src(c,w32(),w32(),wide())); case 7: E(sljit_emit_op_dst(c,w32(),w32(),wide())); case 8: E(sljit_emit_fop1(c,w32(),w32(),wide(),w32(),wide())); case 9: E(sljit_emit_fop2(c,w32(),w32(),wide(),w32(),wide(),w32(),wide())); case 10: E(sljit_emit_fop2r(c,w32(),w32(),w32(),wide(),w32(),wide())); case 11: E(sljit_emit_fset32(c,w32(),1)); case 12: E(sljit_emit_fset64(c,w32(),1)); case 13: E(sljit_emit_fcopy(c,w32(),w32(),w32()));
      case 14: P(sljit_emit_label(c)); case 15: P(sljit_emit_aligned_label(c,w32(),NULL)); case 16: P(sljit_emit_jump(c,w32())); case 17: P(sljit_emit_call(c,w32(),w32())); case 18: P(sljit_emit_cmp(c,w32(),w32(),wide(),w32(),wide())); case 19: P(sljit_emit_fcmp(c,w32(),w32(),wide(),w32(),wide())); case 20: P(sljit_emit_op2cmpz(c,w32(),w32(),wide(),w32(),wide(),w32(),wide())); case 21: E(sljit_emit_ijump(c,w32(),w32(),wide())); case 22: E(sljit_emit_icall(c,w32(),w32(),w32(),wide())); case 23: E(sljit_emit_op_flags(c,w32(),w32(),wide(),w32())); case 24: E(sljit_emit_select(c,w32(),w32(),w32(),wide(),w32())); case 25: E(sljit_emit_mem(c,w32(),w32(),w32(),wide())); case 26: E(sljit_emit_mem_update(c,w32(),w32(),w32(),wide()));
      case 27: E(sljit_emit_simd_mov(c,w32(),w32(),w32(),wide())); case 28: E(sljit_emit_atomic_load(c,w32(),w32(),w32())); case 29: E(sljit_get_local_base(c,w32(),wide(),wide())); case 30: P(sljit_emit_const(c,w32(),w32(),wide(),wide())); case 31: P(sljit_emit_op_addr(c,w32(),w32(),wide())); case 32: E(sljit_emit_return_void(c)); default: E(sljit_emit_enter(c,w32(),w32(),w32(),w32(),w32())); }
    n_sticky++; if(e!=SLJIT_ERR_BAD_ARGUMENT||p) { fail("sticky","after %s: %.60s returned %d/%s",first,n,(int)e,p?"a pointer":"NULL"); return; }
    if(sljit_get_compiler_error(c)!=SLJIT_ERR_BAD_ARGUMENT){ fail("sticky","after %s: %.60s changed the error to %d",first,n,(int)sljit_get_compiler_error(c)); return; } }
}
static u8 seen[F_N][2]; static long n_kinds;
static struct { const char*w; int f; } kinds[700]; static int nkinds;
static void kind_seen(int f,const char*w){ int i; for(i=0;i<nkinds;i++) if(kinds[i].f==f&&!strcmp(kinds[i].w,w)) return; if(nkinds<700){ kinds[nkinds].f=f; kinds[nkinds++].w=w; if(fforms) fprintf(fforms,"%s: %s\n",fname[f],w); } }
static int one(u64 seed)
{
  C*c; int n=3+rn(14),i,f; s32 e; char first[600]; long f0=nfail; rs=sm(seed*2+1); cur=seed; npend=0; ns=nv=nfs=nfv=nvs=nvv=loc=opts=rett=0; fnone(); n=3+rn(14); n_cases++; inval=bad=0; why="";
  c=sljit_create_compiler(NULL); if(!c){ fprintf(stderr,"HARNESS: create\n"); exit(9); }
  for(i=0;i<n;i++){
    f=i==0?(rn(4)==0?F_SETCTX:F_ENTER):(int)rn(F_N); if(i&&(f==F_SETCTX||f==F_ENTER)&&rn(3)) continue; fnname=fname[f];
    if(!fpu&&((f>=F_FOP1&&f<=F_FCOPY)||f==F_FCMP||f==F_FSELECT||f==F_FMEM||f==F_FMEMUP||(f==F_RET&&rett>=SLJIT_ARG_TYPE_F64))) continue; if(!simd&&f>=F_SMOV&&f<=F_SOP2) continue; if(!atom&&(f==F_ALOAD||f==F_ASTORE)) continue;
    if(npend>50) break;
    inval=0; need=0; why=""; ptr_ok=0; bad=i==0?rn(8)==0:rn(5)==0; e=call1(c,f); if(e==0x7001) continue;
    if(nfail>f0) break;
    if(!inval){ n_valid++; if(!seen[f][0]){ seen[f][0]=1; kind_seen(f,"valid"); }
      if(e!=SLJIT_SUCCESS&&e!=0x7002){ fail("rejected","valid call %s returned %d (error %d)",what,(int)e,(int)sljit_get_compiler_error(c)); break; }
      if(sljit_get_compiler_error(c)!=SLJIT_SUCCESS){ fail("rejected","valid call %s set the error %d",what,(int)sljit_get_compiler_error(c)); break; }
      continue; }
    n_invalid++; kind_seen(f,why);
    snprintf(first,sizeof first,"%s [%s]",what,why);
    if(e!=SLJIT_ERR_BAD_ARGUMENT){ fail("accepted","invalid call %s (%s) returned %d",what,why,(int)e); break; }
    if(sljit_get_compiler_error(c)!=SLJIT_ERR_BAD_ARGUMENT){ fail("accepted","invalid call %s (%s): error is %d",what,why,(int)sljit_get_compiler_error(c)); break; }
    sticky(c,first); { void*code=sljit_generate_code(c,0,NULL); n_gen++; if(code||sljit_get_compiler_error(c)!=SLJIT_ERR_BAD_ARGUMENT){ fail("generated","after %s generate_code returned %p, error %d",first,code,(int)sljit_get_compiler_error(c)); if(code) sljit_free_code(code,NULL); } }
    sljit_free_compiler(c); return nfail==f0;
  }
  if(nfail==f0){ void*code; struct sljit_label*l; int leave=0,opt=0,k; l=sljit_emit_label(c); if(!l){ fail("rejected","final label: error %d",(int)sljit_get_compiler_error(c)); }
    else { k=rn(12); if(k==0&&npend){ leave=1; kind_seen(F_JUMP,"jump without target"); } else if(k==1){ opt=rn(2)?0x10:0x100; kind_seen(F_LABEL,"bad generate options"); }
      for(i=leave;i<npend;i++){ if(rn(4)==0) sljit_set_target(pend[i],(uw)0x10000); else sljit_set_label(pend[i],l); }
      if(c&&n<=0){} strcpy(what,"generate_code"); if(opt||leave){ n_invalid++; } else { sljit_emit_op0(c,SLJIT_NOP); }
      code=sljit_generate_code(c,opt,NULL); n_gen++; if(o_print) printf("  generate_code(%d) %s\n",opt,leave?"with a jump that has no target":"");
      if(opt||leave){ if(code||sljit_get_compiler_error(c)!=SLJIT_ERR_BAD_ARGUMENT) fail("generated","generate_code with %s returned %p, error %d",leave?"a jump without target":"unknown options",code,(int)sljit_get_compiler_error(c)); }
      else if(!code||sljit_get_compiler_error(c)!=SLJIT_ERR_COMPILED) fail("rejected","valid program: generate_code returned %p, error %d",code,(int)sljit_get_compiler_error(c));
      if(code) sljit_free_code(code,NULL); } }
  sljit_free_compiler(c); return nfail==f0;
}
/* programs without any instruction, and calls before a context exists */
static void empties(void)
{
  C*c; void*code; s32 e; int i; cur=0;
  c=sljit_create_compiler(NULL); code=sljit_generate_code(c,0,NULL); n_invalid++; if(code||sljit_get_compiler_error(c)!=SLJIT_ERR_BAD_ARGUMENT) fail("generated","generate_code of an empty compiler returned %p, error %d",code,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c);
  for(i=0;i<8;i++){ c=sljit_create_compiler(NULL); switch(i){ case 0: e=sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,1); break; case 1: e=sljit_emit_op2(c,SLJIT_ADD,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,1); break; case 2: e=sljit_emit_return_void(c); break; case 3: e=sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); break; case 4: e=sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM0(),64,SLJIT_IMM,1); break; case 5: sljit_emit_cmp(c,SLJIT_EQUAL,SLJIT_R0,0,SLJIT_IMM,0); e=sljit_get_compiler_error(c); break; case 6: e=sljit_emit_op_dst(c,SLJIT_FAST_ENTER,SLJIT_R0,0); break; default: e=sljit_get_local_base(c,SLJIT_R0,0,0); }
    n_invalid++; if(e!=SLJIT_ERR_BAD_ARGUMENT) fail("accepted","call %d before sljit_emit_enter returned %d",i,(int)e); sljit_free_compiler(c); }
}
int main(int argc,char**argv)
{
  u64 seed=1,count=1000,s; int i;
  for(i=1;i<argc;i++){ char*a=argv[i]; if(!strncmp(a,"seed=",5)) seed=strtoull(a+5,0,10); else if(!strncmp(a,"count=",6)) count=strtoull(a+6,0,10); else if(!strncmp(a,"maxfail=",8)) maxfail=atoi(a+8); else if(!strncmp(a,"print=",6)) o_print=atoi(a+6); else if(!strncmp(a,"forms=",6)){ fforms=fopen(a+6,"w"); if(!fforms){ perror("HARNESS forms"); return 9; } } else if(!strncmp(a,"profile=",8)){} else { fprintf(stderr,"HARNESS: bad option %s\n",a); return 9; } }
  { struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; if(!getenv("NOSIG")) { sigaction(SIGSEGV,&sa,0); sigaction(SIGILL,&sa,0); } sigaction(SIGBUS,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGALRM,&sa,0); }
  memset(ibuf,0x90,sizeof ibuf); fpu=sljit_has_cpu_feature(SLJIT_HAS_FPU)!=0; simd=sljit_has_cpu_feature(SLJIT_HAS_SIMD)!=0; atom=sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)!=0;
  empties();
  for(s=seed;s<seed+count;s++){ alarm(20); one(s); if(nfail>=maxfail) break; }
  alarm(0); printf("STAT cases=%ld calls=%ld valid=%ld invalid=%ld flagbad=%ld unsupported=%ld sticky=%ld generated=%ld kinds=%d fails=%ld\n",n_cases,n_calls,n_valid,n_invalid,n_flagbad,n_unsup,n_sticky,n_gen,nkinds,nfail); if(fforms) fclose(fforms);
  return nfail?1:0;
}
