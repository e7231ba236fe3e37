/* C06 / C10: every jump form at every distance around the limits of its encodings.
   profile=label: a jump to a label of the same code, the distance crosses a limit byte by byte (forward, backward)
   profile=target: a jump to an absolute address (sljit_set_target) where other code was generated before, distances and address values around every power of two
   profile=patch: rewritable jumps are pointed to places near and far, in every order */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
typedef sljit_uw uw; typedef sljit_sw sw; typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef sljit_s32 s32;
#define WS ((int)sizeof(sw))
static u64 sm(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static u64 rs; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static unsigned rn(unsigned n){ return n?(unsigned)((rnd()>>33)%n):0; }
static u64 cur; static const char*prof="label"; static int nfail,maxfail=3,o_print,failed; static FILE*fforms;
static long n_case,n_prog,n_taken,n_not,n_near,n_switch,n_patch,n_pads,n_skipped,n_forms;
static void fail(const char*kind,const char*f,...){ va_list a; if(failed) return; failed=1; nfail++; printf("FAIL profile=%s seed=%llu kind=%s | ",prof,(unsigned long long)cur,kind); va_start(a,f); vprintf(f,a); va_end(a); printf("\n"); fflush(stdout); }
static void form_seen(const char*f,...){ char b[160]; u64 h=1469598103934665603ULL; const char*p; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); for(p=b;*p;p++) h=(h^(u8)*p)*0x100000001b3ULL; n_forms++; if(fforms) fprintf(fforms,"%016llx\n",(unsigned long long)h); }
static sigjmp_buf jb; static volatile int armed;
static void onsig(int s){ if(!armed){ char b[120]; int n=snprintf(b,sizeof b,"FAIL profile=%s seed=%llu kind=signal | signal %d outside of the generated code\n",prof,(unsigned long long)cur,s); if(write(1,b,(size_t)n)){} _exit(1); } armed=0; siglongjmp(jb,s); }
/* ---- memory ---- */
#define AREA 0x22000000u   /* around the centre: limits up to 256 MB in both directions */
static u8*area,*centre; typedef struct { u8*p; u64 lim; int rel; } region; static region rg[96]; static int nrg;
#define RGSZ 0x40000u
static u8*mapat(u64 a,size_t n){ u8*p; if(a<0x200000||(WS==4&&(a>>32||(u64)(u32)a+n>0xf0000000u))||(WS==8&&(a>>47))) return NULL; p=mmap((void*)(uw)a,n,PROT_READ|PROT_WRITE|PROT_EXEC,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|0x100000/*FIXED_NOREPLACE*/,-1,0); if(p==MAP_FAILED) return NULL; if((u64)(uw)p!=a){ munmap(p,n); return NULL; } return p; }
static sw exoff;
static void setup(void)
{
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
  static const u64 walias[]={WS==8?0x7540000000ULL:0xa8000000,WS==8?0x1060000000ULL:0x10000000,0};
#endif
  static const u64 hc[]={0x2050000000ULL,0x60000000,0x50000000,0x70000000,0x40000000,0x90000000,0}; int k; struct sigaction sa; stack_t ss; static u8 alt[1<<16]; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGTRAP,SIGALRM};
  for(k=0;hc[k]&&!area;k++){ area=mapat(hc[k]-AREA/2,AREA); }
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
  /* the code is written through another mapping */
  { int fd=memfd_create("reach",0); void*p; if(!area||fd<0||ftruncate(fd,AREA)<0){ fprintf(stderr,"HARNESS: no memory area\n"); exit(9); }
    munmap(area,AREA); p=mmap(area,AREA,PROT_READ|PROT_EXEC,MAP_SHARED|MAP_NORESERVE|0x100000,fd,0); if(p!=area){ fprintf(stderr,"HARNESS: no memory area\n"); exit(9); }
    p=MAP_FAILED; for(k=0;p==MAP_FAILED&&walias[k];k++) p=mmap((void*)(uw)walias[k],AREA,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_NORESERVE|0x100000,fd,0);
    if(p==MAP_FAILED) p=mmap(NULL,AREA,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_NORESERVE,fd,0); if(p==MAP_FAILED){ fprintf(stderr,"HARNESS: no memory area\n"); exit(9); } close(fd); exoff=(sw)((uw)area-(uw)p); }
#endif
  if(!area){ fprintf(stderr,"HARNESS: no memory area\n"); exit(9); } centre=area+AREA/2;
  /* distances which do not fit in the area, and absolute address limits */
  for(k=28;k<46;k++){ u64 c=(u64)(uw)centre; int s; for(s=-1;s<=1;s+=2) if(k>28&&WS==8){ u8*p=mapat(c+(s>0?(u64)1<<k:-((u64)1<<k))-RGSZ/2,RGSZ); if(p){ rg[nrg].p=p+RGSZ/2; rg[nrg].lim=(u64)1<<k; rg[nrg++].rel=s; } } }
  for(k=22;k<47;k++){ u8*p=mapat(((u64)1<<k)-RGSZ/2,RGSZ); if(p){ rg[nrg].p=p+RGSZ/2; rg[nrg].lim=(u64)1<<k; rg[nrg++].rel=0; } }
  memset(&ss,0,sizeof ss); ss.ss_size=sizeof alt; ss.ss_sp=alt; sigaltstack(&ss,0); memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(k=0;k<7;k++) sigaction(sg[k],&sa,0);
}
/* ---- generated code ---- */
#define SCR (5|SLJIT_ENTER_FLOAT(3))
#define SAV (3|SLJIT_ENTER_FLOAT(0))
#define ARGS SLJIT_ARGS1(W,W)
static int locsz; static s32 cregs,sregs; 
enum { F_JUMP, F_COND, F_CMP, F_FCMP, F_CMPZ, F_FAST, F_CALL, F_TAIL, F_ADDR, F_ABS, F_LAST };
static const char*const fn[]={"jump","cond","cmp","fcmp","op2cmpz","fast_call","call","tail_call","mov_addr","abs_addr"};
static int form,var; static s32 rew;
#define CK(x) do{ if((x)!=SLJIT_SUCCESS) return 1; }while(0)
static int unit=4;
/* the smallest instruction */
static int tiny(struct sljit_compiler*c)
{
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
  u8 b=0x90; return sljit_emit_op_custom(c,&b,1);
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
  uint16_t b=0x0700; return sljit_emit_op_custom(c,&b,2);
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  uint16_t b=0xbf00; return sljit_emit_op_custom(c,&b,2);
#else
#if (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
  if(unit==2){ uint16_t b=1; return sljit_emit_op_custom(c,&b,2); }
#endif
  return sljit_emit_op0(c,SLJIT_NOP);
#endif
}
static void probe_unit(void)
{
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
  unit=1;
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X) || (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  unit=2;
#elif (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV) && (defined __riscv_compressed || (defined SLJIT_CONFIG_RISCV_COMPRESSED && SLJIT_CONFIG_RISCV_COMPRESSED))
  unit=2;
#endif
}
static int locals_args(struct sljit_compiler*c,int ctx){ return ctx?sljit_set_context(c,0,ARGS,SCR+cregs,SAV+sregs,locsz):sljit_emit_enter(c,0,ARGS,SCR+cregs,SAV+sregs,locsz); }
/* the landing place: what the jump form expects there. returns 42 for S0==1 */
static int landing(struct sljit_compiler*c,int id,int infn)
{
  switch(form){
  case F_FAST: CK(sljit_emit_op_dst(c,SLJIT_FAST_ENTER,SLJIT_R2,0)); CK(sljit_emit_op2(c,SLJIT_ADD,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,id)); CK(sljit_emit_op_src(c,SLJIT_FAST_RETURN,SLJIT_R2,0)); return 0;
  case F_CALL: case F_TAIL: (void)infn; CK(sljit_emit_enter(c,0,ARGS,2,2,8)); CK(sljit_emit_op2(c,SLJIT_ADD,SLJIT_S0,0,SLJIT_S0,0,SLJIT_IMM,id-1)); CK(sljit_emit_return(c,SLJIT_MOV,SLJIT_S0,0)); return 0;
  default: CK(sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,id)); return 0; }
}
/* the jump: taken when S0 is 1. Unconditional forms are only called with S0==1 */
static const s32 CT[]={SLJIT_EQUAL,SLJIT_NOT_EQUAL,SLJIT_LESS,SLJIT_GREATER_EQUAL,SLJIT_GREATER,SLJIT_LESS_EQUAL,SLJIT_SIG_LESS,SLJIT_SIG_GREATER_EQUAL,SLJIT_SIG_GREATER,SLJIT_SIG_LESS_EQUAL};
/* comparision type t with operands a,b is true exactly when S0==1 */
static void cond_ops(s32 t,int imm,s32*a,sw*aw,s32*b,sw*bw,sw*k)
{
  int sw_=0; *k=0; *aw=*bw=0; switch(t){ case SLJIT_EQUAL: *k=1; break; case SLJIT_NOT_EQUAL: *k=0; break; case SLJIT_LESS: case SLJIT_SIG_LESS: sw_=1; *k=0; break; case SLJIT_GREATER: case SLJIT_SIG_GREATER: *k=0; break; case SLJIT_GREATER_EQUAL: case SLJIT_SIG_GREATER_EQUAL: *k=1; break; default: sw_=1; *k=1; }
  *a=SLJIT_S0; if(imm){ *b=SLJIT_IMM; *bw=*k; } else { *b=SLJIT_R3; } if(sw_){ s32 x=*a; sw y=*aw; *a=*b; *aw=*bw; *b=x; *bw=y; }
}
static int prep(struct sljit_compiler*c)
{
  sw k,aw,bw; s32 a,b; CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,100));
  switch(form){
  case F_CMP: cond_ops(CT[var%10],0,&a,&aw,&b,&bw,&k); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R3,0,SLJIT_IMM,k)); break;
  case F_COND: cond_ops(CT[var%10],0,&a,&aw,&b,&bw,&k); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R3,0,SLJIT_IMM,var>=24?-1:var>=20?(sw)(((uw)1<<(WS*8-1))-1):k)); break;
  case F_FCMP: CK(sljit_emit_fop1(c,SLJIT_CONV_F64_FROM_SW,SLJIT_FR0,0,SLJIT_S0,0)); CK(sljit_emit_fset64(c,SLJIT_FR1,1.0)); CK(sljit_emit_fset64(c,SLJIT_FR2,0.5)); break;
  case F_CALL: case F_TAIL: CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_S0,0)); break;
  case F_ABS: CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R2,0,SLJIT_IMM,5)); break;
  case F_FAST: CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,0)); break; }
  return 0;
}
static struct sljit_jump*jumpform(struct sljit_compiler*c)
{
  s32 a,b,t=CT[var%10]; sw aw,bw,k; 
  switch(form){
  case F_JUMP: return sljit_emit_jump(c,SLJIT_JUMP|rew);
  case F_COND:
    if(var>=24){ if(sljit_emit_op2u(c,SLJIT_ADD|SLJIT_SET_CARRY,SLJIT_S0,0,SLJIT_R3,0)) return NULL; return sljit_emit_jump(c,SLJIT_CARRY|rew); }
    if(var>=20){ if(sljit_emit_op2u(c,SLJIT_ADD|SLJIT_SET_OVERFLOW,SLJIT_S0,0,SLJIT_R3,0)) return NULL; return sljit_emit_jump(c,SLJIT_OVERFLOW|rew); }
    if(var==19){ if(sljit_emit_op2u(c,SLJIT_AND|SLJIT_SET_Z,SLJIT_S0,0,SLJIT_IMM,1)) return NULL; return sljit_emit_jump(c,SLJIT_NOT_ZERO|rew); }
    cond_ops(t,var&1,&a,&aw,&b,&bw,&k); if(sljit_emit_op2u(c,SLJIT_SUB|((t&~1)==SLJIT_EQUAL?SLJIT_SET_Z:SLJIT_SET((t&~1))),a,aw,b,bw)) return NULL; return sljit_emit_jump(c,t|rew);
  case F_CMP: cond_ops(t,var>=10,&a,&aw,&b,&bw,&k); return sljit_emit_cmp(c,t|rew,a,aw,b,bw);
  case F_FCMP: switch(var%4){ case 0: return sljit_emit_fcmp(c,SLJIT_F_EQUAL|rew,SLJIT_FR0,0,SLJIT_FR1,0); case 1: return sljit_emit_fcmp(c,SLJIT_F_GREATER|rew,SLJIT_FR0,0,SLJIT_FR2,0); case 2: return sljit_emit_fcmp(c,SLJIT_ORDERED_LESS|rew,SLJIT_FR2,0,SLJIT_FR0,0); default: return sljit_emit_fcmp(c,SLJIT_UNORDERED_OR_GREATER_EQUAL|rew,SLJIT_FR0,0,SLJIT_FR1,0); }
  case F_CMPZ: switch(var%3){ case 0: return sljit_emit_op2cmpz(c,SLJIT_SUB|SLJIT_JUMP_IF_ZERO|rew,SLJIT_R3,0,SLJIT_S0,0,SLJIT_IMM,1); case 1: return sljit_emit_op2cmpz(c,SLJIT_AND|SLJIT_JUMP_IF_NON_ZERO|rew,SLJIT_R3,0,SLJIT_S0,0,SLJIT_IMM,1); default: return sljit_emit_op2cmpz(c,SLJIT_XOR|SLJIT_JUMP_IF_ZERO|rew,SLJIT_R3,0,SLJIT_S0,0,SLJIT_IMM,1); }
  case F_FAST: return sljit_emit_jump(c,SLJIT_FAST_CALL|rew);
  case F_CALL: return sljit_emit_call(c,SLJIT_CALL|rew,ARGS);
  case F_TAIL: return sljit_emit_call(c,SLJIT_CALL|SLJIT_CALL_RETURN|rew,ARGS);
  case F_ADDR: return sljit_emit_op_addr(c,SLJIT_MOV_ADDR,SLJIT_R2,0);
  default: return sljit_emit_op_addr(c,var%2?SLJIT_ADD_ABS_ADDR:SLJIT_MOV_ABS_ADDR,SLJIT_R2,0); }
}
static int after(struct sljit_compiler*c)
{
  if(form==F_ADDR) CK(sljit_emit_ijump(c,SLJIT_JUMP,SLJIT_R2,0));
  if(form==F_ABS) return sljit_emit_return(c,SLJIT_MOV,SLJIT_R2,0);
  if(form==F_FAST||form==F_CALL) return sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0);
  return sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,7);
}
static int conditional(void){ return form==F_COND||form==F_CMP||form==F_FCMP||form==F_CMPZ; }
/* qemu-user does not detect that code was modified through another mapping */
static void refresh(u8*p,uw n){ if(exoff){ u8*e=p+n; p=(u8*)((uw)p&~(uw)0xffff); n=((uw)(e-p)+0xffff)&~(uw)0xffff; if(p+n>area+AREA) n=(uw)(area+AREA-p); mprotect(p,n,PROT_READ); mprotect(p,n,PROT_READ|PROT_EXEC); } }
static void*gen(struct sljit_compiler*c,u8*at,size_t n){ void*code; struct sljit_generate_code_buffer b; memset(&b,0,sizeof b); b.buffer=at; b.size=n; if(at>=area&&at<area+AREA){ b.buffer=at-exoff; b.executable_offset=exoff; } code=sljit_generate_code(c,SLJIT_GENERATE_CODE_BUFFER,&b); if(code&&at>=area&&at<area+AREA) refresh(at,sljit_get_generated_code_size(c)); return code; }
static int callf(void*code,sw arg,sw*r)
{
  volatile int s; struct itimerval it; memset(&it,0,sizeof it);
  if((s=sigsetjmp(jb,1))!=0){ setitimer(ITIMER_REAL,&it,0); return s; }
  it.it_value.tv_sec=10; armed=1; setitimer(ITIMER_REAL,&it,0); it.it_value.tv_sec=0; *r=((sw(*)(sw))code)(arg); armed=0; setitimer(ITIMER_REAL,&it,0); return 0;
}
static int check(void*code,sw want,const char*w,long n,sw dist)
{
  sw r=0; int s=callf(code,1,&r); n_prog++;
  if(s){ fail("crash","%s variant %d%s, %s, step %ld, distance %ld: signal %d",fn[form],var,rew?" rewritable":"",w,n,(long)dist,s); return 1; }
  if(r!=want){ fail("jump","%s variant %d%s, %s, step %ld, distance %ld: returned %ld, not %ld",fn[form],var,rew?" rewritable":"",w,n,(long)dist,(long)r,(long)want); return 1; } n_taken++;
  if(conditional()){ r=0; s=callf(code,0,&r); if(s||r!=7){ fail("jump","%s variant %d%s, %s, step %ld, distance %ld, condition is false: signal %d, returned %ld, not 7",fn[form],var,rew?" rewritable":"",w,n,(long)dist,s,(long)r); return 1; } n_not++; }
  return 0;
}
/* limits of the encodings of each machine, and a few others */
static const u32 LIM[]={
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
 0x80,0x80,0x80,0x80,0x80,0x80,
#elif (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
 0x8000,0x100000,0x100000,0x100000,0x100000,
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
 0x80,0x100,0x100,0x100,0x800,0x800,0x800,0x1000,0x1000,0x100000,0x100000,0x1000000,
#elif (defined SLJIT_CONFIG_ARM && SLJIT_CONFIG_ARM)
 0x100,0x400,0x800,0x1000,0x1000,0x1000,0x10000,
#elif (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
 0x100,0x100,0x800,0x800,0x800,0x1000,0x1000,0x1000,0x100000,0x100000,
#elif (defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
 0x8000,0x8000,0x8000,0x8000,0x8000,0x2000000,
#elif (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
 0x20000,0x20000,0x20000,0x20000,0x20000,0x8000,
#elif (defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH)
 0x20000,0x20000,0x20000,0x20000,0x400000,0x400000,0x400000,
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
 0x10000,0x10000,0x10000,0x10000,0x10000,0x1000,0x80000,
#endif
 0x80,0x100,0x800,0x1000,0x8000,0x10000,0x20000,0x80000,0x100000,0x1000000,0x2000000,0x8000000 };
static const u32 TLIM[]={0x1000,0x8000,0x10000,0x20000,0x80000,0x100000,0x100000,0x200000,0x400000,0x400000,0x1000000,0x1000000,0x2000000,0x2000000,0x4000000,0x8000000,0x8000000,0x10000000};
#define NLIM ((int)(sizeof LIM/sizeof*LIM))
#define NTLIM ((int)(sizeof TLIM/sizeof*TLIM))
static void pickform(int patch){ do form=(int)rn(patch?F_ADDR:F_LAST); while(0); var=(int)rn(form==F_COND?28:form==F_CMP?20:form==F_FCMP?4:12); if(!patch&&form<F_ADDR&&form!=F_TAIL&&rn(6)==0) rew=SLJIT_REWRITABLE_JUMP; else rew=0; if(patch) rew=SLJIT_REWRITABLE_JUMP; cregs=(s32)rn(2); sregs=(s32)rn(2); locsz=(int)rn(3)*24; }
/* a gap of about n bytes which is never executed */
static int gap(struct sljit_compiler*c,u32 n,int fine){ int k; if(n){ struct sljit_read_only_buffer b; b.next=NULL; b.size=n; b.u.label=NULL; if(!sljit_emit_aligned_label(c,unit==1?0:unit==2?SLJIT_LABEL_ALIGN_2:SLJIT_LABEL_ALIGN_4,&b)) return 1; } for(k=0;k<fine;k++) CK(tiny(c)); return 0; }
static void case_label(int lk)
{
  u32 lim=LIM[lk],g; int back=(int)rn(2),w=lim>=0x1000000?64:112,n,big=lim>=0x400,steps,first; u8*base=centre; uw lastsz=0; int sw_=0; sw want;
  pickform(0); steps=(big?w:(int)lim+64)/unit; first=big?0:((int)lim>96?(int)lim-96:0)/unit; g=big?(lim-(lim>=0x1000000?56:96))&~15u:0;
  /* the buffer is in the middle of a larger area which is always big enough */
  { static const u32 o[]={0,0x100,0x1000,0x2000000}; base=centre-o[rn(4)]-(lim>0x4000000&&rn(2)?lim/2&~0xfffu:0); }
  for(n=first;n<steps&&!failed;n++){
    struct sljit_compiler*c=sljit_create_compiler(NULL); struct sljit_label*lj=NULL,*lt=NULL; struct sljit_jump*j=NULL,*j0=NULL; void*code; sw dist; int bad=0,o,early=0; uw sz;
    bad|=locals_args(c,0);
    if(!back){ bad|=prep(c); lj=sljit_emit_label(c); j=jumpform(c); if(!j) bad=1; bad|=after(c); bad|=gap(c,g,n); lt=sljit_emit_label(c); if(j&&rn(2)){ sljit_set_label(j,lt); early=1; } bad|=landing(c,42,1); }
    else { j0=sljit_emit_jump(c,SLJIT_JUMP); lt=sljit_emit_label(c); bad|=landing(c,42,1); bad|=gap(c,g,n); if(form==F_CALL||form==F_TAIL) bad|=locals_args(c,1); sljit_set_label(j0,sljit_emit_label(c)); bad|=prep(c); lj=sljit_emit_label(c); j=jumpform(c); if(j&&rn(2)){ sljit_set_label(j,lt); early=1; } bad|=after(c); }
    (void)o; if(j&&!early) sljit_set_label(j,lt);
    if(bad||!j||sljit_get_compiler_error(c)){ fail("emit","%s variant %d: emission failed, error %d",fn[form],var,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
    code=gen(c,base,(size_t)(area+AREA-base)); if(!code){ fail("nocode","%s variant %d: no code, error %d",fn[form],var,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
    dist=(sw)(sljit_get_label_abs_addr(lt)-sljit_get_label_abs_addr(lj)); sz=sljit_get_generated_code_size(c)-(uw)n*(uw)unit; want=form==F_ABS?(sw)(sljit_get_label_abs_addr(lt)+(var%2?5:0)):42;
    { sw d=dist<0?-dist:dist; if(d>=(sw)lim-20&&d<=(sw)lim+20) n_near++; } if(n>first&&sz!=lastsz){ n_switch++; sw_++; } lastsz=sz;
    sljit_free_compiler(c); if(o_print) printf("%s var %d rew %x lim %x back %d n %d dist %ld size %lu\n",fn[form],var,(unsigned)rew,lim,back,n,(long)dist,(unsigned long)sz);
    check(code,want,back?"backward label":"forward label",n,dist); }
  form_seen("label %d %d %d %d %d",form,var,rew!=0,lk,back);
}
static void*mkpad(u8*at,int id)
{
  struct sljit_compiler*c=sljit_create_compiler(NULL); void*code; int bad=0; if(form!=F_CALL&&form!=F_TAIL) bad|=locals_args(c,1); bad|=landing(c,id,0); code=bad?NULL:gen(c,at,0x1000); if(!code) fail("emit","landing place: error %d",(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); n_pads++; return code;
}
/* SLJIT_MOV_ABS_ADDR does not set the instruction set bit */
static uw padaddr(void*pad)
{
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  return (uw)SLJIT_FUNC_UADDR(pad)&~(uw)1;
#else
  return (uw)SLJIT_FUNC_UADDR(pad);
#endif
}
static void case_target(void)
{
  u8*T,*base; u64 lim; int rel,n,steps=80/unit; void*pad; uw lastsz=0,A0; sw want; const char*w; pickform(0);
  { static const u32 o[]={0,0x100,0x40,0x8000}; base=centre-o[rn(4)]; }
  if(rn(3)||!nrg){ lim=TLIM[rn(NTLIM)]; rel=rn(2)?1:-1; }
  else { int k=(int)rn((unsigned)nrg); lim=rg[k].lim; rel=rg[k].rel; if(!rel){ T=rg[k].p+((int)rn(17)-8)*16; w="absolute limit"; steps=2; goto have; } }
  /* where is the jump? */
  { struct sljit_compiler*c=sljit_create_compiler(NULL); struct sljit_label*l; void*code; int bad=locals_args(c,0)|prep(c); l=sljit_emit_label(c); bad|=tiny(c); bad|=sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,0); code=bad?NULL:gen(c,base,0x10000); if(!code){ fail("emit","probe"); sljit_free_compiler(c); return; } A0=sljit_get_label_abs_addr(l); sljit_free_compiler(c); }
  w=rel>0?"forward target":"backward target"; 
  if(rel>0) T=(u8*)(((uw)A0+(uw)lim+16+15)&~(uw)15); else T=(u8*)(((uw)A0-(uw)lim+48)&~(uw)15);
have:
  pad=mkpad(T,42); if(!pad) return; 
  for(n=0;n<steps&&!failed;n++){
    struct sljit_compiler*c=sljit_create_compiler(NULL); struct sljit_label*lj; struct sljit_jump*j; void*code; int bad=locals_args(c,0),k; sw dist; uw sz; bad|=prep(c); for(k=0;k<n;k++) bad|=tiny(c); lj=sljit_emit_label(c); j=jumpform(c); if(!j) bad=1; else sljit_set_target(j,(uw)SLJIT_FUNC_UADDR(pad)); bad|=after(c);
    if(bad||sljit_get_compiler_error(c)){ fail("emit","%s variant %d: emission failed, error %d",fn[form],var,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
    code=gen(c,base,0x10000); if(!code){ fail("nocode","%s variant %d: no code, error %d",fn[form],var,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
    dist=(sw)((uw)T-sljit_get_label_abs_addr(lj)); sz=sljit_get_generated_code_size(c)-(uw)n*(uw)unit; if(n&&sz!=lastsz) n_switch++; lastsz=sz; { u64 d=(u64)(dist<0?-dist:dist); if(d+20>=lim&&d<=lim+20) n_near++; }
    want=form==F_ABS?(sw)(padaddr(pad)+(var%2?5:0)):42; sljit_free_compiler(c); if(o_print) printf("%s var %d rew %x target %p n %d dist %ld size %lu\n",fn[form],var,(unsigned)rew,(void*)T,n,(long)dist,(unsigned long)sz);
    check(code,want,w,n,dist); }
  form_seen("target %d %d %d %d %d",form,var,rew!=0,(int)(lim?__builtin_ctzll(lim):0),rel);
}
static void case_patch(void)
{
  enum { NP=6 }; u8*base=centre-(rn(2)?0x100:0); void*pad[NP]; uw tg[NP+2]; int id[NP+2],nt=0,k,init,n; struct sljit_compiler*c; struct sljit_label*la=NULL,*lb=NULL; struct sljit_jump*j; int bad; void*code; uw ja; sw off; u32 g; char desc[200]; size_t dl=0;
  pickform(1); if(form==F_TAIL&&rn(2)) form=F_CALL;
  for(k=0;k<NP;k++){ u8*T; int tries=0,i; do { int q=(int)rn(4); if(q==0&&nrg) T=rg[rn((unsigned)nrg)].p+((int)rn(256)-128)*64; else if(q==1) { u32 l=TLIM[rn(NTLIM)]; T=centre+(rn(2)?(sw)l:-(sw)l)+((int)rn(65)-32)*16; } else T=area+(((uw)rn(AREA-0x20000)+0x10000)&~(uw)15);
      i=0; if(T>base-0x1000&&T<base+0x40000) i=NP; else for(i=0;i<nt;i++) { sw d=(sw)((uw)T-(tg[i]&~(uw)15)); if(d<0x1000&&d>-0x1000) break; } if(i>=nt&&i!=NP) break; } while(++tries<50); if(tries>=50){ continue; }
    pad[k]=mkpad(T,200+k); if(!pad[k]) return; tg[nt]=(uw)SLJIT_FUNC_UADDR(pad[k]); id[nt++]=200+k; }
  (void)pad; init=(int)rn((unsigned)nt+2); g=rn(3)?0:LIM[rn(NLIM)]&~15u; if(g>0x20000) g=0;
  c=sljit_create_compiler(NULL); bad=locals_args(c,0)|prep(c); n=(int)rn(8); for(k=0;k<n;k++) bad|=tiny(c); j=jumpform(c); if(!j) bad=1; bad|=after(c); la=sljit_emit_label(c); bad|=landing(c,300,1); bad|=gap(c,g,(int)rn(4)); if(form==F_CALL||form==F_TAIL) {} lb=sljit_emit_label(c); bad|=landing(c,301,1);
  if(j){ if(init<nt) sljit_set_target(j,tg[init]); else sljit_set_label(j,init==nt?la:lb); }
  if(bad||sljit_get_compiler_error(c)){ fail("emit","%s variant %d: emission failed, error %d",fn[form],var,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
  code=gen(c,base,0x40000); if(!code){ fail("nocode","%s variant %d: no code",fn[form],var); sljit_free_compiler(c); return; }
  ja=sljit_get_jump_addr(j); off=sljit_get_executable_offset(c); if(off!=exoff) fail("offset","executable offset is %ld, not %ld",(long)off,(long)exoff); tg[nt]=sljit_get_label_addr(la); id[nt]=300; tg[nt+1]=sljit_get_label_addr(lb); id[nt+1]=301; sljit_free_compiler(c);
  k=init; snprintf(desc,sizeof desc,"patched"); (void)dl;
  for(n=0;n<14&&!failed;n++){ if(o_print) printf("%s var %d target %lx (id %d)\n",fn[form],var,(unsigned long)tg[k],id[k]); snprintf(desc,sizeof desc,"points to %lx",(unsigned long)tg[k]); if(check(code,id[k],desc,n,(sw)(tg[k]-(uw)base))) break; k=(int)rn((unsigned)nt+2); sljit_set_jump_addr(ja,tg[k],off); refresh(base,0x40000); n_patch++; }
  form_seen("patch %d %d %d",form,var,init<nt?0:1);
}
int main(int argc,char**argv)
{
  u64 seed=1,s; long count=10,k; int j; const char*forms=NULL;
  for(j=1;j<argc;j++){ char*e=strchr(argv[j],'='); if(!e) continue; *e++=0; if(!strcmp(argv[j],"seed")) seed=strtoull(e,0,0); else if(!strcmp(argv[j],"count")) count=atol(e); else if(!strcmp(argv[j],"profile")) prof=e; else if(!strcmp(argv[j],"maxfail")) maxfail=atoi(e); else if(!strcmp(argv[j],"print")) o_print=atoi(e); else if(!strcmp(argv[j],"forms")) forms=e; }
  setvbuf(stdout,NULL,_IOLBF,1<<16); if(forms) fforms=fopen(forms,"w"); setup(); probe_unit(); { struct sljit_compiler*c=sljit_create_compiler(NULL); sljit_free_compiler(c); }
  for(k=0;k<count&&nfail<maxfail;k++){ s=seed+(u64)k; cur=s; failed=0; rs=sm(s)|1; rnd(); rnd(); n_case++;
    if(!strcmp(prof,"label")){ int lk=(int)rn(NLIM); if(LIM[lk]>=0x1000000&&rn(LIM[lk]>=0x8000000?40:12)) lk=(int)rn(6); case_label(lk); } else if(!strcmp(prof,"target")) case_target(); else case_patch(); }
  printf("STAT cases=%ld programs=%ld taken=%ld not_taken=%ld near_limit=%ld encoding_changes=%ld patches=%ld landing_places=%ld skipped=%ld regions=%d fails=%d\n",n_case,n_prog,n_taken,n_not,n_near,n_switch,n_patch,n_pads,n_skipped,nrg,nfail);
  if(fforms) fclose(fforms); return nfail?1:0;
}
