/* Driver: generates programs, executes them with the real library and compares with the model. */
#include "eng.h"
#include "emit.h"
#include "tramp.h"
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>
#ifndef MAP_NORESERVE
#define MAP_NORESERVE 0
#endif
crec clog_[256]; int nclog; extern u8 visited[];
static int misalign; static long n_calls;
#if defined __arm__ || defined __mips__
#define SPALIGN 8
#elif defined __i386__
#define SPALIGN 4
#else
#define SPALIGN 16
#endif
static u64 clog_call(int id,u64 a,u64 b,u64 c,u64 d,void*fa){ u64 v[4]={a,b,c,d},r; crec q; r=callee_eval(id,v,&q); if(nclog<256) clog_[nclog++]=q; n_calls++; if((uw)fa&(SPALIGN-1)) misalign=1; return r; }
static u64 ud(double d){ u64 v; memcpy(&v,&d,8); return v; } static u64 uf(float d){ u32 v; memcpy(&v,&d,4); return v; } static double du(u64 v){ double d; memcpy(&d,&v,8); return d; } static float fu(u64 v){ u32 u=(u32)v; float d; memcpy(&d,&u,4); return d; }
#define FA (SPALIGN==16?__builtin_frame_address(0):(void*)0)
#if defined __s390x__ || defined __powerpc__ || defined __i386__
#undef FA
#define FA (void*)0
#endif
static sw cl0(sw a){ return (sw)clog_call(0,(u64)(uw)a,0,0,0,FA); }
static sw cl1(sw a,sw b,sw c){ return (sw)clog_call(1,(u64)(uw)a,(u64)(uw)b,(u64)(uw)c,0,FA); }
static s32 cl2(s32 a,sw b,void*c,s32 d){ return (s32)clog_call(2,(u32)a,(u64)(uw)b,(u64)(uw)c,(u32)d,FA); }
static double cl3(double a){ return du(clog_call(3,ud(a),0,0,0,FA)); }
static float cl4(float a,sw b,double c,s32 d){ return fu(clog_call(4,uf(a),(u64)(uw)b,ud(c),(u32)d,FA)); }
static sw cl5(double a,float b,double c,float d){ return (sw)clog_call(5,ud(a),uf(b),ud(c),uf(d),FA); }
static void cl6(sw a,double b,sw c){ clog_call(6,(u64)(uw)a,ud(b),(u64)(uw)c,0,FA); }
static void *cl7(void){ return (void*)(uw)clog_call(7,0,0,0,0,FA); }
static s32 cl8(sw a,sw b,sw c,sw d){ return (s32)clog_call(8,(u64)(uw)a,(u64)(uw)b,(u64)(uw)c,(u64)(uw)d,FA); }
static double cl9(s32 a,float b,sw c,double d){ return du(clog_call(9,(u32)a,uf(b),(u64)(uw)c,ud(d),FA)); }
static sw cl10(s32 a,s32 b,s32 c,s32 d){ return (sw)clog_call(10,(u32)a,(u32)b,(u32)c,(u32)d,FA); }
static float cl11(float a,float b,float c,double d){ return fu(clog_call(11,uf(a),uf(b),uf(c),ud(d),FA)); }
callee callees[NCALLEE]={ {SLJIT_ARGS1(W,W),(void*)cl0,""},{SLJIT_ARGS3(W,W,W,W),(void*)cl1,""},{SLJIT_ARGS4(32,32,W,P,32),(void*)cl2,""},{SLJIT_ARGS1(F64,F64),(void*)cl3,""},{SLJIT_ARGS4(F32,F32,W,F64,32),(void*)cl4,""},{SLJIT_ARGS4(W,F64,F32,F64,F32),(void*)cl5,""},
 {SLJIT_ARGS3V(W,F64,W),(void*)cl6,""},{SLJIT_ARGS0(P),(void*)cl7,""},{SLJIT_ARGS4(32,W,W,W,W),(void*)cl8,""},{SLJIT_ARGS4(F64,32,F32,W,F64),(void*)cl9,""},{SLJIT_ARGS4(W,32,32,32,32),(void*)cl10,""},{SLJIT_ARGS4(F32,F32,F32,F32,F64),(void*)cl11,""} };

static prof profs[16]; static int nprofs;
static prof *P_(const char*n){ prof*p=&profs[nprofs++]; memset(p,0,sizeof*p); p->name=n; p->nins=40; p->flagp=20; p->memp=25; p->immp=25; p->logp=35; p->runs=4; p->far=6; return p; }
static void mkprofs(void)
{
  prof*p;
  p=P_("int"); p->w[K_OP0]=8; p->w[K_OP1]=30; p->w[K_OP2]=60; p->w[K_OP2R]=4; p->w[K_SHINTO]=10; p->w[K_OP2U]=3; p->w[K_IF]=2; p->w[K_LOCB]=1; p->memp=30; p->immp=30; p->logp=50; p->flagp=15;
  p=P_("flags"); p->w[K_OP2]=30; p->w[K_OP2U]=30; p->w[K_OPFLAGS]=10; p->w[K_SELECT]=10; p->w[K_IF]=12; p->w[K_FLAGLAB]=6; p->w[K_OP1]=6; p->w[K_FCMP]=10; p->w[K_FSELECT]=5; p->w[K_SHINTO]=2; p->w[K_LOOP]=2; p->flagp=90; p->memp=15; p->floats=1; p->nan=1; p->logp=60;
  p=P_("mem"); p->w[K_OP1]=30; p->w[K_MEM]=25; p->w[K_MEMU]=15; p->w[K_FMEM]=12; p->w[K_FMEMU]=8; p->w[K_OP2]=15; p->w[K_FOP1]=8; p->w[K_LOCB]=4; p->w[K_PREFETCH]=2; p->memp=60; p->immp=15; p->floats=1; p->nan=1; p->bigloc=1;
  p=P_("frame"); p->nins=24; p->w[K_OP1]=15; p->w[K_OP2]=15; p->w[K_CALL]=25; p->w[K_FCALL]=6; p->w[K_SUB]=4; p->w[K_LOCB]=5; p->w[K_FOP1]=6; p->w[K_RET]=4; p->w[K_IF]=6; p->w[K_LOOP]=2; p->w[K_GETRA]=2; p->floats=1; p->bigloc=1; p->ijmp=1; p->w[K_SMOV]=3; p->vecs=1;
  p=P_("jump"); p->nins=24; p->w[K_OP1]=4; p->w[K_OP2]=6; p->w[K_IF]=30; p->w[K_LOOP]=10; p->w[K_SWITCH]=14; p->w[K_SUB]=8; p->w[K_FCALL]=12; p->w[K_PAD]=8; p->w[K_ROBUF]=6; p->w[K_CONST]=3; p->w[K_CALL]=2; p->w[K_FCMP]=2; p->w[K_RET]=2; p->padp=60; p->far=7; p->ijmp=1; p->rewrite=1; p->floats=1; p->runs=4; p->logp=20;
  p=P_("far"); p->nins=14; p->w[K_OP1]=4; p->w[K_OP2]=6; p->w[K_IF]=30; p->w[K_LOOP]=10; p->w[K_SWITCH]=14; p->w[K_SUB]=8; p->w[K_FCALL]=12; p->w[K_PAD]=6; p->w[K_ROBUF]=6; p->w[K_CONST]=3; p->w[K_CALL]=2; p->w[K_RET]=2; p->padp=60; p->far=15; p->ijmp=1; p->rewrite=1; p->floats=1; p->runs=4; p->logp=20;
  p=P_("float"); p->w[K_FOP1]=45; p->w[K_FOP2]=30; p->w[K_FOP2R]=10; p->w[K_FSET]=5; p->w[K_FCOPY]=12; p->w[K_FCMP]=20; p->w[K_FSELECT]=6; p->w[K_OP1]=8; p->w[K_FMEM]=5; p->w[K_IF]=6; p->w[K_CALL]=2; p->floats=1; p->nan=1; p->memp=35; p->logp=60; p->runs=8;
  p=P_("simd"); p->w[K_SMOV]=15; p->w[K_SREP]=12; p->w[K_SLANE]=20; p->w[K_SLREP]=10; p->w[K_SEXT]=12; p->w[K_SSIGN]=8; p->w[K_SOP2]=15; p->w[K_OP1]=6; p->w[K_FOP1]=4; p->w[K_OP2]=4; p->w[K_IF]=2; p->w[K_CALL]=1; p->floats=1; p->vecs=1; p->memp=30;
  p=P_("patch"); p->w[K_CONST]=30; p->w[K_SWITCH]=20; p->w[K_ROBUF]=10; p->w[K_IF]=8; p->w[K_OP1]=10; p->w[K_OP2]=10; p->w[K_LOOP]=4; p->w[K_PAD]=3; p->w[K_CALL]=2; p->w[K_SUB]=2; p->w[K_FCALL]=3; p->rewrite=1; p->ijmp=1; p->runs=8; p->padp=10; p->far=5; p->floats=1;
  p=P_("mix"); p->nins=60; { static const int k[]={K_OP0,K_OP1,K_OP2,K_OP2U,K_OP2R,K_SHINTO,K_OPFLAGS,K_SELECT,K_FOP1,K_FOP2,K_FOP2R,K_FSET,K_FCOPY,K_FCMP,K_FSELECT,K_MEM,K_MEMU,K_FMEM,K_FMEMU,K_LOCB,K_CONST,K_IF,K_LOOP,K_SWITCH,K_SUB,K_FCALL,K_CALL,K_PAD,K_ROBUF,K_PREFETCH,K_GETRA,K_RET,K_SMOV,K_SREP,K_SLANE,K_SLREP,K_SEXT,K_SSIGN,K_SOP2,K_FLAGLAB}; unsigned j; for(j=0;j<sizeof k/sizeof*k;j++) p->w[k[j]]=4; p->w[K_OP1]=12; p->w[K_OP2]=14; p->w[K_IF]=8; p->w[K_CALL]=5; } p->floats=1; p->vecs=1; p->nan=1; p->rewrite=1; p->ijmp=1; p->padp=10; p->far=4; p->bigloc=1; p->flagp=40;
}
/* ---------- execution ---------- */
#define STKSZ (3u<<20)
static u8 *stk; static u8 *topstk; static u8 stkpat[8192];
static sigjmp_buf jb; static volatile int phase; static volatile int sigarmed; static const char*const phn[]={"generate","model","emit","codegen","patch","exec","check"};
static void onsig(int s){ if(!sigarmed) _exit(70); sigarmed=0; siglongjmp(jb,s); }
static u64 splitmix(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static char det[4096];
static void D_(const char*f,...){ va_list a; size_t l=strlen(det); va_start(a,f); vsnprintf(det+l,sizeof det-l,f,a); va_end(a); }
static long n_prog,n_runs,n_skip,n_dep,n_ins,n_steps,n_patch_c,n_patch_j,n_patch_r,n_lab,n_bytes,n_buf,n_evt;
/* set of executed instruction forms */
#define HS (1u<<18)
static u64 hset[HS]; static u32 hn; static void hadd(u64 k){ u32 h=(u32)(splitmix(k)&(HS-1)); if(!k) k=1; while(hset[h]){ if(hset[h]==k) return; h=(h+1)&(HS-1); } if(hn<HS*3/4){ hset[h]=k; hn++; } }
static int okind(s32 a){ if(a==0) return 0; if(a==SLJIT_IMM) return 1; if(!(a&SLJIT_MEM)) return 2; if((a&0x7f)==SLJIT_SP) return 3; if(!(a&0x7f)) return 4; return (a>>8)?6:5; }
static u64 formof(const ins*i){ return (u64)i->kind<<52|(u64)(u32)i->op<<16|(u64)okind(i->d)<<12|(u64)okind(i->a)<<8|(u64)okind(i->b)<<4|(u64)okind(i->c); }
static int pagesz=4096;
static u8 *pick_map(size_t sz,int prot,const u64*hints,int n)
{ int k; for(k=0;k<n;k++){ u64 h=hints[k]; u8*p; if(WS==4&&(h>>32)) continue; p=mmap((void*)(uw)h,sz,prot,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) continue; if((u64)(uw)p+sz>0x1f000000ULL&&(u64)(uw)p<0x31000000ULL){ munmap(p,sz); continue; } return p; } fprintf(stderr,"HARNESS: mmap\n"); exit(9); }
#define NB 6
static u8 *bufs[NB];
#define NC 4
static u8 *cbufs[NC]; static const uw CBSZ=8u<<20;
static int cmode_enabled=1;
#if (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR) || (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
int cmode_off=1;
#else
int cmode_off;
#endif
static void setup(void)
{
  static const u64 h[NB][3]={{0x00200000,0x40000000,0},{0x7fff8000ULL-0x4000,0x60000000,0},{0x1234560000ULL,0x50000000,0},{
#ifdef WITH_VARIANT
 0x7f0612340000ULL
#else
 0
#endif
 ,0x45000000,0},{0x7ffe0000,0x5fff0000,0},{0x3f8000000000ULL,0x48880000,0}};
  static const u64 ch[NC][3]={{0x01000000,0x32000000,0},{0x3a0000000000ULL,0x52000000,0},{0x7f000000,0x6f000000,0},{0x250000000ULL,0x62000000,0}};
  int k; stack_t ss; struct sigaction sa; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGTRAP,SIGALRM};
  for(k=0;k<NB;k++){ int j; u64 hh[12]; int n=0; for(j=0;j<3;j++) hh[n++]=h[k][j]; hh[n++]=0x42000000+(u64)k*0x100000; bufs[k]=pick_map(BUFSZ,PROT_READ|PROT_WRITE,hh,n); }
  for(k=0;k<NC;k++){ int j; u64 hh[12]; int n=0; for(j=0;j<3;j++) hh[n++]=ch[k][j]; hh[n++]=0x47000000; cbufs[k]=pick_map(CBSZ,PROT_READ|PROT_WRITE|PROT_EXEC,hh,n); }
  stk=mmap(0,STKSZ+65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(stk,65536,PROT_NONE); topstk=stk+65536+STKSZ-8192;
  memset(&ss,0,sizeof ss); ss.ss_size=1<<16; { static u8 alt[1<<16]; ss.ss_sp=alt; }; sigaltstack(&ss,0);
  memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(k=0;k<7;k++) sigaction(sg[k],&sa,0);
  { u64 s=rs; rs=0x1234567; for(k=0;k<8192;k++) stkpat[k]=(u8)rnd(); rs=s; }
}
static void fill_inputs(void)
{
  int k; for(k=0;k<BUFSZ;k+=8){ u64 v=rnd(); memcpy(buf+k,&v,8); }
  for(k=0;k<SZ_INT/8;k++) if(rn(2)){ u64 v=rimm(); memcpy(buf+OFF_INT+8*k,&v,8); }
  for(k=0;k<64;k++){ u64 v=rf64(); memcpy(buf+OFF_FLT+8*k,&v,8); } for(k=0;k<128;k++){ u32 v=rf32(); memcpy(buf+OFF_F32+4*k,&v,4); }
  for(k=0;k<32;k++){ u64 v=rimm(); memcpy(buf+OFF_IN+8*k,&v,8); v=rf64(); memcpy(buf+OFF_FIN+8*k,&v,8); } for(k=0;k<64;k++){ u32 v=rf32(); memcpy(buf+OFF_FIN+0x100+4*k,&v,4); }
  for(k=0;k<SZ_VEC/8;k++) switch(rn(3)){ case 0: { u64 v=rf64(); memcpy(buf+OFF_VEC+8*k,&v,8); break; } case 1: { u32 v=rf32(); memcpy(buf+OFF_VEC+8*k+4*rn(2),&v,4); break; } }
  for(k=0;k<BUFSZ;k++) mtag[k]=0; memcpy(mmem,buf,BUFSZ);
}
static int cmpmem(void)
{
  int o,bad=0; for(o=0;o<BUFSZ;o++){
    if(o==OFF_SCR){ o+=SZ_SCR-1; continue; }
    if(mtag[o]==2){ u64 v; memcpy(&v,buf+o,8); if(!((v&0x7fffffffffffffffULL)>0x7ff0000000000000ULL)){ D_(" mem+0x%x: %016llx is not NaN;",o,(unsigned long long)v); bad++; } o+=7; continue; }
    if(mtag[o]==1){ u32 v; memcpy(&v,buf+o,4); if(!((v&0x7fffffff)>0x7f800000)){ D_(" mem+0x%x: %08x is not NaN;",o,v); bad++; } o+=3; continue; }
    if(buf[o]!=mmem[o]){ int e=o&~7; u64 g,x; memcpy(&g,buf+e,8); memcpy(&x,mmem+e,8); if(bad<4) D_(" mem+0x%x: got %016llx expected %016llx;",e,(unsigned long long)g,(unsigned long long)x); bad++; o=e+7; }
  } n_bytes+=BUFSZ; return bad;
}
static sw sx32(sw v){ return (sw)(s32)v; }
static u8 mapchk(void){ return 0; }
/* returns 0 ok, 1 failure (det filled) */
static const char *fkind, *o_nop, *o_dump; extern int emit_pc; static int o_serial,o_verb,o_print,o_norun,o_minit;
static u8 robinit[65536];
static void write_robs(void)
{ int k; for(k=0;k<nrob;k++){ robuf*b=&robs[k]; u8*p=sljit_read_only_buffer_start_writing(lab_abs[b->lab],(uw)b->size,exec_off); memcpy(p,robdata+b->off,(size_t)b->size); sljit_read_only_buffer_end_writing(lab_abs[b->lab],(uw)b->size,exec_off); n_patch_r++; } }
static int one(u64 seed)
{
  struct sljit_compiler*c=NULL; struct emit_opt eo; void*code=NULL; int k,run,rc=0,mode,placed=-1; uw args[4]; struct sljit_generate_code_buffer gb; u8*cb=NULL; uw cap=0; void*entry; const char*asan;
  (void)mapchk; (void)robinit; (void)asan;
  det[0]=0; fkind=""; rs=splitmix(seed)|1; for(k=0;k<4;k++) rnd();
  phase=0; buf=bufs[rn(NB)]; generate(); n_prog++; n_ins+=np; mode=(int)rn(3);
  { const char*q=o_nop; while(q&&*q){ char*e; long v=strtol(q,&e,10); if(e==q) break; if(v>=0&&v<np){ memset(&prog[v],0,sizeof(ins)); prog[v].kind=K_PAD; prog[v].lab=-1; } q=*e==','?e+1:e; } }
  if(o_nop){ int c=0; for(k=0;k<np;k++) if(prog[k].kind==K_CONST){ constv[c]=constv[prog[k].x]; constop[c]=constop[prog[k].x]; prog[k].x=c++; } nconst=c; }
  for(k=0;k<np;k++) swtarget[k]=prog[k].lab;
  for(k=0;k<robused;k++) robdata[k]=(u8)rnd();
  if(o_print){ prog_print(stdout); fflush(stdout); }
#ifdef WITH_OOM
  { extern int oom_test(u64,s32,s32,u8*,uw,const char**); const char*d; phase=2; n_runs++; if(oom_test(splitmix(seed),c_scr|SLJIT_ENTER_FLOAT(c_fscr)|SLJIT_ENTER_VECTOR(c_vscr),c_sav|SLJIT_ENTER_FLOAT(c_fsav)|SLJIT_ENTER_VECTOR(c_vsav),cbufs[0],CBSZ,&d)){ fkind="oom"; D_(" %s",d); return 1; } return 0; }
#endif
  phase=2; memset(&eo,0,sizeof eo); eo.seed=splitmix(seed^0x55); eo.serial=o_serial; eo.verb=o_verb; 
  eo.scr=c_scr|SLJIT_ENTER_FLOAT(c_fscr)|SLJIT_ENTER_VECTOR(c_vscr); eo.sav=c_sav|SLJIT_ENTER_FLOAT(c_fsav)|SLJIT_ENTER_VECTOR(c_vsav);
#ifdef WITH_EMIT
  { extern int emit_check(struct emit_opt*,u64,const char**); const char*d; int q; n_runs++; q=emit_check(&eo,splitmix(seed^0x77),&d); if(o_verb) fflush(verb_out); if(q){ fkind=q==2?"rejected":"emission"; D_(" %s",d); if(q==2&&!strncmp(d,"HARNESS",7)){ fprintf(stderr,"%s\n",d); exit(9); } return 1; } for(k=0;k<np;k++) hadd(formof(&prog[k])); return 0; }
#endif
  k=emit_program(&eo,&c); if(k==-2){ fprintf(stderr,"%s\n",emit_err); exit(9); } if(k){ fkind="rejected"; D_(" %s",emit_err); return 1; }
  if(o_verb) { fflush(verb_out); }
  phase=3;
  if(cmode_enabled&&mode){ int cbk=(int)rn(NC); cap=CBSZ; gb.buffer=cbufs[cbk]; gb.size=cap; gb.executable_offset=0; 
    /* pick a start that is not always page aligned */
    { uw off=(uw)rn(64)*16; gb.buffer=cbufs[cbk]+off; gb.size=CBSZ-off-4096; } cb=gb.buffer; cap=gb.size;
    code=sljit_generate_code(c,SLJIT_GENERATE_CODE_BUFFER,&gb); placed=cbk; n_buf++; }
  else code=sljit_generate_code(c,0,NULL);
  (void)placed;
  if(!code){ fkind="nocode"; D_(" generate_code returned NULL error=%d",(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return 1; }
  collect(c); sljit_free_compiler(c);
  entry=code; (void)entry;
  if(cb){ if((uw)((u8*)SLJIT_FUNC_UADDR(code)-cb)>64||code_size>cap){ fkind="placement"; D_(" code %p size %lu outside of buffer %p",code,(long)code_size,(void*)cb); return 1; } }
  if(o_dump){ FILE*f=fopen(o_dump,"wb"); if(f){ fwrite((void*)(SLJIT_FUNC_UADDR(code)&~(uw)1),1,code_size,f); fclose(f); } }
  /* label checks */
  { uw base=SLJIT_FUNC_UADDR(code)&~(uw)1; for(k=0;k<np;k++) if(prog[k].kind==K_ROBUF){ uw a=lab_abs[prog[k].lab],al=(uw)1<<prog[k].op; int n; n_lab++; if(a&(al-1)){ fkind="align"; D_(" label %d address %lx alignment %lu",prog[k].lab,(long)a,(long)al); rc=1; }
      for(n=0;n<prog[k].y;n++){ robuf*b=&robs[prog[k].x+n]; uw s=lab_abs[b->lab],e=s+(uw)b->size; int m; if(s<base||e>base+code_size){ fkind="robounds"; D_(" buffer %d at %lx size %d outside of code %lx size %lx",prog[k].x+n,(long)s,b->size,(long)base,(long)code_size); rc=1; }
        if(n>0&&s!=lab_abs[b->lab-1]+(uw)robs[prog[k].x+n-1].size&&s<lab_abs[b->lab-1]+(uw)robs[prog[k].x+n-1].size){ fkind="robounds"; D_(" buffer %d overlaps the previous one",prog[k].x+n); rc=1; } (void)m; } }
    /* labels are ordered as the code */
    { uw last=0; for(k=0;k<np;k++) if(prog[k].kind==K_LABEL||prog[k].kind==K_ROBUF){ uw a=lab_abs[prog[k].lab]&~(uw)1; if(a<last||a>base+code_size){ fkind="laborder"; D_(" label %d address %lx after %lx code end %lx",prog[k].lab,(long)a,(long)last,(long)(base+code_size)); rc=1; } last=a; } } }
  if(rc||o_norun) goto out;
  phase=4; if(nrob) write_robs();
  for(run=0;run<P.runs;run++){
    phase=4;
    if(run&&P.rewrite){ 
      for(k=0;k<np;k++) if(prog[k].kind==K_CONST&&rn(2)){ ins*i=&prog[k]; int idx=i->x; sw v; s32 b=i->op&0xff; if(b==SLJIT_MOV_U8) v=i->y?(sw)rn(512)-256:(sw)rn(256); else if(b==SLJIT_MOV) v=(sw)rimm(); else v=(sw)(s32)rimm(); constv[idx]=v; sljit_set_const(const_addr[idx],i->op,v,exec_off); n_patch_c++; }
      for(k=0;k<np;k++) if(jump_rew[k]&&rn(2)){ ins*i=&prog[k]; int t=i->y?i->x+(int)rn((u32)i->y):i->lab; swtarget[k]=t; sljit_set_jump_addr(jump_addr[k],lab_addr[t],exec_off); n_patch_j++; }
      if(nrob&&rn(2)){ robuf*b; k=(int)rn((u32)nrob); b=&robs[k]; { int j; for(j=0;j<b->size;j++) robdata[b->off+j]=(u8)rnd(); } write_robs(); } }
    fill_inputs();
    for(k=0;k<4;k++) args[k]=(uw)rimm();
    for(k=0;k<4;k++) if(k<c_nargs&&c_argt[k]==SLJIT_ARG_TYPE_32) args[k]=(uw)sx32((sw)args[k]);
    phase=1;
    { /* the result may not depend on unspecified values: uninitialized registers and stack, upper half of 32 bit results */
      static u8 in0[BUFSZ],m0[BUFSZ],t0[BUFSZ]; static crec l0[256]; int pass,nl0=0,dep=0,uns=0; u64 r0=0; memcpy(in0,mmem,BUFSZ);
      for(pass=0;pass<2;pass++){ int ns=0; memcpy(mmem,in0,BUFSZ); memset(mtag,0,BUFSZ); model_garbage=pass?0xa5c3f10f00000000ULL:0; model_fake=pass?0x05a30550:0; memset(M.rt,WS,sizeof M.rt); memset(M.fw,0,sizeof M.fw);
        for(k=1;k<=NR;k++) M.r[k]=(0xbadc0ffebadc0ffeULL+(u64)!pass*0x0f1e2d3c4b5a6978ULL)&(WS==8?~(u64)0:0xffffffffu); memset(M.f,0x11+pass*2,sizeof M.f); memset(M.fx,0,sizeof M.fx); memset(M.v,0x33+pass,sizeof M.v); memset(visited,0,(size_t)np); memset(M.loc,0x77+pass,(size_t)c_loc); memset(M.ltag,0,(size_t)c_loc);
        for(k=0;k<c_nargs;k++){ int g=c_argr[k]?SLJIT_R0+k:SLJIT_S0-ns++; M.r[g]=args[k]; if(c_argt[k]==SLJIT_ARG_TYPE_32&&WS==8){ M.r[g]=(u32)args[k]|model_garbage; M.rt[g]=4; } }
        M.z=M.var=pass; M.unord=pass; model_run(); uns|=M.unspec;
        if(!pass){ memcpy(m0,mmem,BUFSZ); memcpy(t0,mtag,BUFSZ); memcpy(l0,mlog,sizeof l0); nl0=nmlog; r0=M.ret; }
        else dep=memcmp(m0,mmem,OFF_SCR)||memcmp(m0+OFF_SCR+SZ_SCR,mmem+OFF_SCR+SZ_SCR,BUFSZ-OFF_SCR-SZ_SCR)||memcmp(t0,mtag,BUFSZ)||nl0!=nmlog||memcmp(l0,mlog,sizeof(crec)*(size_t)nl0)||(c_ret&&(c_ret==SLJIT_ARG_TYPE_32||c_ret==SLJIT_ARG_TYPE_F32?(u32)r0!=(u32)M.ret:r0!=M.ret)); }
      if(uns){ n_skip++; continue; } if(dep){ n_dep++; if(o_print) printf("dependent run\n"); continue; } }
    n_steps+=M.steps;
    /* run the real code */
    { u64 w; for(k=0;k<4;k++) memcpy(tramp_buf+T_ARG+8*k,&args[k],WS); w=0; memcpy(tramp_buf+T_FKIND,&w,8); { u32 fk=c_ret==SLJIT_ARG_TYPE_F64?1:c_ret==SLJIT_ARG_TYPE_F32?2:0; memcpy(tramp_buf+T_FKIND,&fk,4); }
      for(k=0;k<TR_NS;k++){ w=rnd(); memcpy(tramp_buf+T_SIN+8*k,&w,8); } for(k=0;k<TR_NF;k++){ w=rnd(); memcpy(tramp_buf+T_FIN+8*k,&w,8); }
      { uw a=(uw)code; memcpy(tramp_buf+T_FN,&a,WS); a=(uw)(topstk-(run&1?16:0)); memcpy(tramp_buf+T_STK,&a,WS); memset(topstk-256,0x3c,256); memcpy(topstk-16,stkpat,8192-64); } }
    nclog=0; misalign=0; phase=5; 
    { struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=20; setitimer(ITIMER_REAL,&it,0); tramp(tramp_buf); memset(&it,0,sizeof it); setitimer(ITIMER_REAL,&it,0); }
    phase=6; n_runs++;
    if(cmpmem()){ fkind="memory"; rc=1; }
    { uw sp,st; u8*tp=topstk-(run&1?16:0); memcpy(&sp,tramp_buf+T_SPAFTER,WS); st=(uw)tp; if(sp!=st){ fkind="sp"; D_(" stack pointer %lx expected %lx;",(long)sp,(long)st); rc=1; }
      for(k=TR_HOME;k<8192-128;k++) if(tp[k]!=stkpat[k+(run&1?0:16)]){ fkind="callerstack"; D_(" caller stack byte +%d changed;",k); rc=1; break; }
      for(k=0;k<TR_NS;k++){ u64 a=0,b=0; memcpy(&a,tramp_buf+T_SIN+8*k,WS); memcpy(&b,tramp_buf+T_SOUT+8*k,WS);
#if defined __powerpc__
        if(k==18){ u32 m=0x00fff000; uw x,y; memcpy(&x,tramp_buf+T_SIN+8*k,WS); memcpy(&y,tramp_buf+T_SOUT+8*k,WS); a=x&m; b=y&m; }
#endif
        if(a!=b){ fkind="savedreg"; D_(" saved register %s %llx -> %llx;",tr_names[k],(unsigned long long)a,(unsigned long long)b); rc=1; } }
#ifndef __i386__
      for(k=0;k<TR_NF;k++) if(memcmp(tramp_buf+T_FIN+8*k,tramp_buf+T_FOUT+8*k,8)){ fkind="savedfreg"; D_(" saved float register #%d changed;",k); rc=1; }
#endif
    }
    { u64 g=0,x=M.ret; switch(c_ret){ case 0: break; case SLJIT_ARG_TYPE_F64: memcpy(&g,tramp_buf+T_FRET,8); if(g!=x&&!((x&0x7fffffffffffffffULL)>0x7ff0000000000000ULL&&(g&0x7fffffffffffffffULL)>0x7ff0000000000000ULL)) goto badret; break;
        case SLJIT_ARG_TYPE_F32: { u32 t; memcpy(&t,tramp_buf+T_FRET32,4); g=t; if(g!=x&&!((x&0x7fffffff)>0x7f800000&&(g&0x7fffffff)>0x7f800000)) goto badret; break; }
        default: { uw t; memcpy(&t,tramp_buf+T_RET,WS); g=t; if(c_ret==SLJIT_ARG_TYPE_32){ g&=0xffffffffu; x&=0xffffffffu; } if(g!=x){ badret: fkind="return"; D_(" return value %llx expected %llx;",(unsigned long long)g,(unsigned long long)x); rc=1; } } } }
    if(nclog!=nmlog){ fkind="calls"; D_(" %d calls, expected %d;",nclog,nmlog); rc=1; } else for(k=0;k<nclog;k++) if(memcmp(&clog_[k],&mlog[k],sizeof(crec))){ int j; fkind="calls"; D_(" call %d to %d/%d:",k,clog_[k].id,mlog[k].id); for(j=0;j<4;j++) D_(" %llx/%llx",(unsigned long long)clog_[k].v[j],(unsigned long long)mlog[k].v[j]); rc=1; break; }
    if(misalign){ fkind="spalign"; D_(" stack misaligned in callee;"); rc=1; }
    { uw v,x; memcpy(&v,mmem+OFF_SCR+SZ_SCR-8,WS); if(v==0x1234){ memcpy(&x,buf+OFF_SCR+SZ_SCR-8,WS); n_evt++; if((x&~(uw)1)!=((uw)tramp_ret&~(uw)1)){ fkind="retaddr"; D_(" return address %lx expected %lx;",(long)x,(long)tramp_ret); rc=1; } } }
    for(k=0;k<np;k++) if(visited[k]) hadd(formof(&prog[k]));
    if(rc){ D_(" run=%d",run); break; }
  }
out:
  if(!cb) sljit_free_code(code,NULL);
  return rc;
}
int main(int argc,char**argv)
{
  u64 seed=1,s; long count=100,k; int j,nf=0,maxf=5; const char*pn="mix",*forms=NULL,*verbf=NULL; double wall=0; struct timespec t0,t1; volatile u64 vs; 
  for(j=1;j<argc;j++){ char*e=strchr(argv[j],'='); if(!e) continue; *e++=0; if(!strcmp(argv[j],"seed")) seed=strtoull(e,0,0); else if(!strcmp(argv[j],"count")) count=atol(e); else if(!strcmp(argv[j],"profile")) pn=e; else if(!strcmp(argv[j],"serial")) o_serial=atoi(e); else if(!strcmp(argv[j],"damage")) emit_damage=atoi(e); else if(!strcmp(argv[j],"verb")) o_verb=atoi(e); else if(!strcmp(argv[j],"print")) o_print=atoi(e); else if(!strcmp(argv[j],"forms")) forms=e; else if(!strcmp(argv[j],"verbfile")) verbf=e; else if(!strcmp(argv[j],"minit")) o_minit=atoi(e); else if(!strcmp(argv[j],"nop")) o_nop=e; else if(!strcmp(argv[j],"dump")) o_dump=e; else if(!strcmp(argv[j],"maxfail")) maxf=atoi(e); else if(!strcmp(argv[j],"norun")) o_norun=atoi(e); else if(!strcmp(argv[j],"wall")) wall=atof(e); else if(!strcmp(argv[j],"codebuf")) cmode_enabled=atoi(e); }
#if (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
  cmode_enabled=0;
#endif
  verb_out=verbf?fopen(verbf,"w"):stdout; rs=seed|1; mkprofs(); for(j=0;j<nprofs;j++) if(!strcmp(profs[j].name,pn)) P=profs[j]; if(!P.name){ fprintf(stderr,"HARNESS: no profile\n"); return 9; }
  setvbuf(stdout,NULL,_IOLBF,1<<16); setup(); clock_gettime(CLOCK_MONOTONIC,&t0);
  { struct sljit_compiler*c=sljit_create_compiler(NULL); sljit_free_compiler(c); } has_fpu=sljit_has_cpu_feature(SLJIT_HAS_FPU)!=0; has_simd=sljit_has_cpu_feature(SLJIT_HAS_SIMD)!=0;
  { struct sljit_compiler*c=sljit_create_compiler(NULL); void*q; uw s1,s2; sljit_emit_enter(c,0,SLJIT_ARGS0V(),1,0,0); sljit_emit_return_void(c); q=sljit_generate_code(c,0,0); s1=sljit_get_generated_code_size(c); sljit_free_code(q,0); sljit_free_compiler(c);
    c=sljit_create_compiler(NULL); sljit_emit_enter(c,0,SLJIT_ARGS0V(),1,0,0); for(j=0;j<64;j++) sljit_emit_op0(c,SLJIT_NOP); sljit_emit_return_void(c); q=sljit_generate_code(c,0,0); s2=sljit_get_generated_code_size(c); sljit_free_code(q,0); sljit_free_compiler(c); nopsize=(int)((s2-s1)/64); if(nopsize<1) nopsize=1; }
  for(k=0;k<count;k++){
    int sg; s=seed+(u64)k; vs=s; sigarmed=1; sg=sigsetjmp(jb,1);
#ifdef WITH_VARIANT
    if(sg){ extern void variant_recover(void); variant_recover(); }
#endif
    if(sg){ struct itimerval it; memset(&it,0,sizeof it); setitimer(ITIMER_REAL,&it,0); snprintf(det,sizeof det," signal %d in phase %s instr %d",sg,phn[phase],phase==2?emit_pc:-1); fkind=sg==SIGALRM?"hang":phase==5?"crash":phase<2?"harness":"libcrash"; if(phase<2&&0) return 9; j=1; }
    else j=one(s);
    sigarmed=0;
    if(j){ printf("FAIL profile=%s seed=%llu kind=%s%s\n",pn,(unsigned long long)vs,fkind,det); fflush(stdout); if(!strcmp(fkind,"harness")) return 9; if(++nf>=maxf) break;
#ifdef WITH_OOM
      { extern void oom_stop(void); oom_stop(); if(sg) break; }
#endif
    }
    if(wall>0&&(k&7)==7){ clock_gettime(CLOCK_MONOTONIC,&t1); if((double)(t1.tv_sec-t0.tv_sec)>wall){ k++; break; } }
  }
  printf("STAT programs=%ld runs=%ld skipped_unspecified=%ld dependent=%ld instructions=%ld executed_steps=%ld bytes_compared=%ld callee_calls=%ld const_rewrites=%ld jump_rewrites=%ld robuf_writes=%ld aligned_labels=%ld code_buffers=%ld return_addresses=%ld serializations=%ld damaged_rejected=%ld damaged_words=%ld api_calls=%ld forms=%u fails=%d\n",n_prog,n_runs,n_skip,n_dep,n_ins,n_steps,n_bytes,n_calls,n_patch_c,n_patch_j,n_patch_r,n_lab,n_buf,n_evt,n_serial,n_reject,n_mutant,n_api,hn,nf);
#ifdef WITH_EMIT
  { extern long n_x_gen,n_x_rej,n_x_bytes,n_x_patch,n_x_same,n_x_scn,n_x_tail; printf("STAT tails=%ld generated=%ld rejected_buffers=%ld code_bytes=%ld rewrites=%ld restored_images=%ld\n",n_x_tail,n_x_gen,n_x_rej,n_x_bytes,n_x_patch,n_x_same); }
#endif
#ifdef WITH_OOM
  { extern long n_oom_faults,n_oom_scen,n_oom_after,n_oom_gen; extern u64 oom_forms[]; u32 h; printf("STAT faults_injected=%ld scenarios=%ld calls_after_error=%ld faults_in_generate=%ld\n",n_oom_faults,n_oom_scen,n_oom_after,n_oom_gen); for(h=0;h<65536;h++) if(oom_forms[h]) hadd(oom_forms[h]); }
#endif
#ifdef WITH_VARIANT
  { extern long n_vtext,n_x_gen; printf("STAT digests=%ld verbose_checked=%ld\n",n_x_gen,n_vtext); }
#endif
  if(forms){ FILE*f=fopen(forms,"w"); u32 h; if(f){ for(h=0;h<HS;h++) if(hset[h]) fprintf(f,"%llx\n",(unsigned long long)hset[h]); fclose(f); } }
  return nf?1:0;
}
