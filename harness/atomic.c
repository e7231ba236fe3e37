/* C09: threads run generated load / store loops on shared, adjacent locations; the logged operations are judged afterwards.
   profile=rmw: every success must be one step of a single chain from the initial to the final value.
   profile=barrier: store buffering with SLJIT_MEMORY_BARRIER; both threads missing the other's store is forbidden. */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sched.h>
#include <sys/time.h>
typedef sljit_uw uw; typedef sljit_sw sw; typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef sljit_s32 s32;
#define WS ((int)sizeof(sw))
static u64 sm(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static __thread u64 rs; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static unsigned rn(unsigned n){ return n?(unsigned)((rnd()>>33)%n):0; }
static u64 cur; static const char*prof="rmw"; static long nfail; static int maxfail=5,o_print; static FILE*fforms;
static long n_att,n_suc,n_failed,n_sw,n_loc,n_prog,n_neigh,n_gaps,n_ctrl,n_rounds,n_reg,n_unsup,n_pert; static u64 hset[1<<16]; static long n_inter;
static void fail(const char*kind,const char*f,...){ va_list a; printf("FAIL profile=%s seed=%llu kind=%s | ",prof,(unsigned long long)cur,kind); va_start(a,f); vprintf(f,a); va_end(a); printf("\n"); fflush(stdout); nfail++; }
static void onsig(int s){ char b[160]; int n=snprintf(b,sizeof b,"FAIL profile=%s seed=%llu kind=signal | signal %d\n",prof,(unsigned long long)cur,s); if(write(1,b,(size_t)n)){} _exit(1); }
static void form_seen(const char*f,...){ char b[160]; u64 h=1469598103934665603ULL; const char*p; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); for(p=b;*p;p++) h=(h^(u8)*p)*0x100000001b3ULL; if(fforms) fprintf(fforms,"%016llx\n",(unsigned long long)h); }
static void inter(u64 h){ u32 k=(u32)(h&0xffff); if(!h) h=1; while(hset[k]&&hset[k]!=h) k=(k+1)&0xffff; if(!hset[k]&&n_inter<60000){ hset[k]=h; n_inter++; } }
/* ---- generated functions ---- */
#define NS 6
typedef struct { uw log,target,count,param,stride,pert; uw fin[8]; uw sent[NS],sentout[NS]; } ctx;
typedef struct { s32 op; int size,kind,tmp,sep,cas_noload,spin,read,t32,pert; int nsent; uw sval[NS]; void*code; uw delta; } prog;
enum { K_ADD, K_XOR, K_UNIQ };
static const s32 OPS[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32,SLJIT_MOV32,SLJIT_MOV_P};
static int opsize(s32 op){ switch(op){ case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: return 4; } return WS; }
static s32 sup[64]; static int nsup;
static void find(void)
{
  unsigned k,m; static const s32 md[3]={0,SLJIT_ATOMIC_USE_CAS,SLJIT_ATOMIC_USE_LS};
  for(k=0;k<9;k++) for(m=0;m<3;m++){ struct sljit_compiler*c=sljit_create_compiler(0); s32 a,b; 
    if(WS==4&&(OPS[k]==SLJIT_MOV_U32||OPS[k]==SLJIT_MOV_S32||OPS[k]==SLJIT_MOV32)&&0) continue;
    sljit_emit_enter(c,0,SLJIT_ARGS0V(),3,3,0); a=sljit_emit_atomic_load(c,OPS[k]|md[m]|SLJIT_ATOMIC_TEST,SLJIT_R0,SLJIT_R1); b=sljit_emit_atomic_store(c,OPS[k]|md[m]|SLJIT_ATOMIC_TEST,SLJIT_R2,SLJIT_R1,SLJIT_R0); sljit_free_compiler(c);
    if((a==SLJIT_SUCCESS)!=(b==SLJIT_SUCCESS)){ fail("support","atomic load and store of op 0x%x differ in support",(unsigned)(OPS[k]|md[m])); continue; }
    if(a==SLJIT_SUCCESS) sup[nsup++]=OPS[k]|md[m]; else n_unsup++; }
}
#define CK(x) do{ if((x)!=SLJIT_SUCCESS){ fail("emit","emission failed: %s gives %d",#x,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return 0; } }while(0)
#define OFF(f) ((sw)SLJIT_OFFSETOF(ctx,f))
static int compile_(prog*q)
{
  struct sljit_compiler*c=sljit_create_compiler(0); s32 real[32],any[40]; int nr=0,na=0,k; s32 L,M1,M2,P,D,T,N,N2,O,F; struct sljit_label*lp,*l2; struct sljit_jump*j; s32 mv,ad,xo; int R=SLJIT_NUMBER_OF_REGISTERS; int ns=1+(int)rn(SLJIT_NUMBER_OF_SAVED_REGISTERS),nsc=R-ns; s32 ls=(q->op&SLJIT_ATOMIC_USE_LS)!=0,all[40]; int n=0,isz=3;
  if(nsc<1){ nsc=1; ns=R-1; }
  for(k=0;k<nsc;k++) all[n++]=SLJIT_R(k); for(k=1;k<ns;k++) all[n++]=SLJIT_S(k);
  for(k=n-1;k>0;k--){ int x=(int)rn((unsigned)k+1); s32 t=all[k]; all[k]=all[x]; all[x]=t; }
  for(k=0;k<n;k++){ int virt=0;
#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
    virt=sljit_get_register_index(SLJIT_GP_REGISTER,all[k])<0;
#endif
    if(!virt&&nr<isz) real[nr++]=all[k]; else any[na++]=all[k]; }
  L=real[0]; M1=real[1]; M2=q->sep?real[2]:M1; if(!q->sep) any[na++]=real[2];
  /* x86-32: the interesting registers (R0 and virtual ones) appear in every role because of the shuffle */
  for(k=na-1;k>0;k--){ int x=(int)rn((unsigned)k+1); s32 t=any[k]; any[k]=any[x]; any[x]=t; }
  k=0; P=any[k++]; D=any[k++]; N=any[k++]; O=any[k++]; F=any[k++]; T=D; N2=N;
  if(q->tmp==1) T=any[k++]; if(q->tmp==2) D=T=SLJIT_TMP_DEST_REG; if(q->tmp==3){ N2=N; N=SLJIT_TMP_DEST_REG; }
  if(ls&&q->tmp==0&&rn(2)) T=rn(2)?N:F; /* unused in this mode */
  mv=q->t32?SLJIT_MOV32:SLJIT_MOV; ad=q->t32?SLJIT_ADD32:SLJIT_ADD; xo=q->t32?SLJIT_XOR32:SLJIT_XOR;
  CK(sljit_emit_enter(c,0,SLJIT_ARGS1V(P),nsc,ns,(s32)rn(3)*32));
  CK(sljit_emit_op1(c,SLJIT_MOV,L,0,SLJIT_MEM1(SLJIT_S0),OFF(log))); CK(sljit_emit_op1(c,SLJIT_MOV,M1,0,SLJIT_MEM1(SLJIT_S0),OFF(target))); if(M2!=M1) CK(sljit_emit_op1(c,SLJIT_MOV,M2,0,M1,0));
  CK(sljit_emit_op1(c,mv,P,0,SLJIT_MEM1(SLJIT_S0),OFF(param)));
  q->nsent=0; while(k<na&&q->nsent<NS){ CK(sljit_emit_op1(c,SLJIT_MOV,any[k],0,SLJIT_MEM1(SLJIT_S0),OFF(sent)+q->nsent*WS)); q->nsent++; k++; } k-=q->nsent;
  lp=sljit_emit_label(c);
  if(q->kind==K_UNIQ&&q->tmp>=2) CK(sljit_emit_op1(c,mv,N2,0,P,0));
  if(q->kind==K_UNIQ&&q->tmp==3) CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,1));
  if(q->cas_noload) CK(sljit_emit_op1(c,q->op&0xff,D,0,SLJIT_MEM1(M1),0)); else CK(sljit_emit_atomic_load(c,q->op,D,M1));
  if(q->pert){ /* expect another value in some of the attempts: these must fail */
    CK(sljit_emit_op2(c,SLJIT_AND,F,0,SLJIT_MEM1(SLJIT_S0),OFF(count),SLJIT_IMM,1)); CK(sljit_emit_op2(c,SLJIT_SUB,F,0,SLJIT_IMM,0,F,0)); CK(sljit_emit_op2(c,SLJIT_AND,F,0,F,0,SLJIT_MEM1(SLJIT_S0),OFF(pert)));
    if(q->t32) CK(sljit_emit_op1(c,SLJIT_MOV32,F,0,F,0)); CK(sljit_emit_op2(c,xo,D,0,D,0,F,0)); }
  if(q->tmp!=2){
    CK(sljit_emit_op1(c,mv,O,0,D,0)); if(T!=D&&!(ls&&q->tmp==0)) CK(sljit_emit_op1(c,mv,T,0,D,0));
    if(q->spin==1){ CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,3)); CK(sljit_emit_op2(c,SLJIT_ADD,F,0,F,0,SLJIT_IMM,7)); }
    else if(q->spin>1){ CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,q->spin)); l2=sljit_emit_label(c); CK(sljit_emit_op2(c,SLJIT_SUB|SLJIT_SET_Z,F,0,F,0,SLJIT_IMM,1)); j=sljit_emit_jump(c,SLJIT_NOT_ZERO); sljit_set_label(j,l2); }
    if(q->kind==K_ADD) CK(sljit_emit_op2(c,ad,N2,0,O,0,P,0)); else if(q->kind==K_XOR) CK(sljit_emit_op2(c,xo,N2,0,P,0,O,0)); else if(q->tmp<3) CK(sljit_emit_op1(c,mv,N2,0,P,0));
    if(N!=N2) CK(sljit_emit_op1(c,mv,N,0,N2,0)); }
  CK(sljit_emit_atomic_store(c,q->op|SLJIT_SET_ATOMIC_STORED,N,M2,T));
  if(q->tmp==2) CK(sljit_emit_op1(c,mv,O,0,T,0)); /* only meaningful after a success */
  switch(q->read){
  case 0: CK(sljit_emit_op_flags(c,SLJIT_MOV,F,0,SLJIT_ATOMIC_STORED)); break;
  case 1: CK(sljit_emit_op_flags(c,SLJIT_MOV,F,0,SLJIT_ATOMIC_NOT_STORED)); CK(sljit_emit_op2(c,SLJIT_XOR,F,0,F,0,SLJIT_IMM,1)); break;
  case 2: j=sljit_emit_jump(c,SLJIT_ATOMIC_STORED); CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,0)); { struct sljit_jump*e=sljit_emit_jump(c,SLJIT_JUMP); sljit_set_label(j,sljit_emit_label(c)); CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,1)); sljit_set_label(e,sljit_emit_label(c)); } break;
  case 3: CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,0)); j=sljit_emit_jump(c,SLJIT_ATOMIC_NOT_STORED); CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,1)); sljit_set_label(j,sljit_emit_label(c)); break;
  case 4: CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,0)); CK(sljit_emit_select(c,SLJIT_ATOMIC_STORED,F,SLJIT_IMM,1,F)); break;
  default: CK(sljit_emit_op1(c,SLJIT_MOV,F,0,SLJIT_IMM,1)); CK(sljit_emit_select(c,SLJIT_ATOMIC_NOT_STORED,F,SLJIT_IMM,0,F)); break; }
  CK(sljit_emit_op1(c,mv,SLJIT_MEM1(L),0,O,0)); CK(sljit_emit_op1(c,mv,SLJIT_MEM1(L),WS,N2,0)); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(L),2*WS,F,0));
  if(q->tmp==2||(ls&&q->tmp==0)) CK(sljit_emit_op1(c,mv,SLJIT_MEM1(L),3*WS,O,0)); else CK(sljit_emit_op1(c,mv,SLJIT_MEM1(L),3*WS,T,0));
  CK(sljit_emit_op2(c,SLJIT_ADD,L,0,L,0,SLJIT_IMM,4*WS));
  CK(sljit_emit_op2(c,q->t32?SLJIT_ADD32:SLJIT_ADD,P,0,P,0,SLJIT_MEM1(SLJIT_S0),OFF(stride)));
  CK(sljit_emit_op2(c,SLJIT_SUB|SLJIT_SET_Z,SLJIT_MEM1(SLJIT_S0),OFF(count),SLJIT_MEM1(SLJIT_S0),OFF(count),SLJIT_IMM,1));
  j=sljit_emit_jump(c,SLJIT_NOT_ZERO); sljit_set_label(j,lp);
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),OFF(fin),M1,0)); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),OFF(fin)+WS,M2,0)); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),OFF(fin)+2*WS,L,0));
  { int i; for(i=0;i<q->nsent;i++) CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),OFF(sentout)+i*WS,any[k+i],0)); }
  CK(sljit_emit_return_void(c));
  q->code=sljit_generate_code(c,0,0); if(!q->code){ fail("generate","code generation failed: %d",(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return 0; } sljit_free_compiler(c); n_prog++;
  if(o_print) printf("D%d T%d N%d M%d,%d P%d O%d F%d L%d | ",(int)D,(int)T,(int)N,(int)M1,(int)M2,(int)P,(int)O,(int)F,(int)L);
  form_seen("%x k%d t%d s%d n%d sp%d r%d D%d T%d N%d M%d,%d",(unsigned)q->op,q->kind,q->tmp,q->sep,q->cas_noload,q->spin>1?2:q->spin,q->read,(int)D,(int)T,(int)N,(int)M1,(int)M2);
  return 1;
}
/* ---- a case ---- */
#define MAXT 8
#define BLK 64
typedef struct { int off,size,uniq; u64 init; } loc;
typedef struct { prog p; ctx x; int loc; u8*log; long iters; int id; u64 p0,stride; } thr;
static u8 block[BLK] __attribute__((aligned(64))); static int owner[BLK]; /* 0 nobody, 1 location, 2+i writer i */
static volatile int ready,gof,stopf; static thr T_[MAXT]; static int nt,nw; static char werr[4][120]; static long wcount[4]; static u64 wseed[4];
static u64 getn(const volatile u8*p,int s){ switch(s){ case 1: return *p; case 2: return *(volatile uint16_t*)p; case 4: return *(volatile uint32_t*)p; } return *(volatile u64*)p; }
static void putn(u8*p,int s,u64 v){ switch(s){ case 1: *p=(u8)v; break; case 2: *(uint16_t*)p=(uint16_t)v; break; case 4: *(uint32_t*)p=(uint32_t)v; break; default: *(u64*)p=v; } }
static u64 mask(int s){ return s==8?~0ULL:(1ULL<<(8*s))-1; }
static void waitgo(void){ int n=0; __sync_fetch_and_add(&ready,1); while(!gof) if(++n>1000) sched_yield(); }
static void*worker(void*a){ thr*t=a; void (SLJIT_FUNC *f)(void*)=(void(SLJIT_FUNC*)(void*))t->p.code; waitgo(); f(&t->x); return 0; }
static void*writer(void*a){ int id=(int)(intptr_t)a,k; u8 last[BLK]; u64 s=wseed[id]; volatile u8*b=block; long n=0; for(k=0;k<BLK;k++) last[k]=b[k]; waitgo();
  while(!stopf){ for(k=0;k<BLK;k++) if(owner[k]==2+id){ if(b[k]!=last[k]){ snprintf(werr[id],sizeof werr[id],"byte %d next to the locations changed from %02x to %02x",k,last[k],b[k]); goto out; } s=s*6364136223846793005ULL+1442695040888963407ULL; last[k]=(u8)(s>>40); b[k]=last[k]; n++; } }
  for(k=0;k<BLK;k++) if(owner[k]==2+id&&b[k]!=last[k]){ snprintf(werr[id],sizeof werr[id],"byte %d next to the locations changed from %02x to %02x",k,last[k],b[k]); }
out: wcount[id]=n; return 0; }
/* Eulerian path check: vertices are values */
typedef struct { u64 v; long bal; int par; } vert;
static int vcmp(const void*a,const void*b){ u64 x=((const vert*)a)->v,y=((const vert*)b)->v; return x<y?-1:x>y; }
static vert*V; static long nv; static long vfind(u64 v){ long lo=0,hi=nv-1; while(lo<=hi){ long m=(lo+hi)/2; if(V[m].v==v) return m; if(V[m].v<v) lo=m+1; else hi=m-1; } return -1; }
static long root(long k){ while(V[k].par!=k) k=V[k].par=V[V[k].par].par; return k; }
static u64 ent(thr*t,long i,int f){ u8*e=t->log+(i*4+f)*WS; if(t->p.t32&&f!=2) return *(uint32_t*)e; return *(uw*)e; }
static void one(u64 seed,long scale)
{
  loc L[4]; int nl=0,k,l; pthread_t th[MAXT+4]; char desc[200]; int users[4]={0,0,0,0}; u8 before[BLK]; int span=8<<rn(2),base=(int)rn((unsigned)(BLK/span))*span;
  rs=sm(seed)|1; memset(owner,0,sizeof owner); for(k=0;k<BLK;k++) block[k]=(u8)rnd();
  nl=1+(int)rn(3); for(k=0;k<nl;k++){ s32 op=sup[rn((unsigned)nsup)]; int s=opsize(op&0xff),x,y,ok=0; for(x=0;x<20&&!ok;x++){ L[k].off=base+(int)rn((unsigned)(span/s))*s; ok=1; for(y=0;y<s;y++) if(owner[L[k].off+y]) ok=0; } if(!ok){ nl=k; break; } L[k].size=s; for(y=0;y<s;y++) owner[L[k].off+y]=1; L[k].uniq=s>=4&&rn(2); L[k].init=getn(block+L[k].off,s); }
  nt=nl+1+(int)rn(4); if(nt>MAXT) nt=MAXT; nw=(int)rn(3);
  if(nw) for(k=base;k<base+span;k++) if(!owner[k]&&rn(4)) owner[k]=2+(int)rn((unsigned)nw);
  memcpy(before,block,BLK);
  for(k=0;k<nt;k++){ thr*t=&T_[k]; prog*q=&t->p; int tries=0; memset(t,0,sizeof*t); t->id=k; t->loc=k<nl?k:(int)rn((unsigned)nl); 
    do q->op=sup[rn((unsigned)nsup)]; while(opsize(q->op&0xff)!=L[t->loc].size&&++tries<10000); if(tries>=10000) exit(9);
    q->size=L[t->loc].size; q->t32=(q->op&0xff)==SLJIT_MOV32; q->kind=L[t->loc].uniq?K_UNIQ:(int)rn(2); q->tmp=(int)rn(4); if(q->tmp==2&&(q->kind!=K_UNIQ||(q->op&SLJIT_ATOMIC_USE_LS))) q->tmp=1; 
#if !((defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X))
    if(q->tmp==2&&!(q->op&SLJIT_ATOMIC_USE_CAS)) q->tmp=rn(2); /* the temporary register may be clobbered when it is not used */
#endif
    q->sep=(int)rn(2); q->cas_noload=(q->op&SLJIT_ATOMIC_USE_CAS)&&rn(3)==0; q->pert=q->cas_noload&&q->tmp!=2&&rn(2); q->spin=rn(3)?(int)rn(2):2+(int)rn(60); q->read=(int)rn(6);
    t->iters=(200+(long)rn(3000))*scale; if(rn(4)==0) t->iters*=4; t->log=calloc((size_t)t->iters*4+4,WS);
    if(q->kind==K_UNIQ){ u64 mul=rnd()|1,m=mask(q->size<WS?q->size:WS); /* id and counter in the value: unique modulo 2^32 */ (void)mul; t->p0=((u64)(k+1)<<28)|(L[t->loc].init+1)*0; t->stride=1; if(q->size==8){ t->p0=((u64)(k+1)<<56)|(rnd()&0x7fffffffULL); t->stride=0x100000001ULL; } t->p0&=m; }
    else { t->p0=rn(3)?rnd():(u64)1<<rn(8*(unsigned)q->size); t->stride=rn(3)?0:rnd(); }
    if(q->t32){ t->p0=(u64)(sw)(s32)t->p0; t->stride=(u64)(sw)(s32)t->stride; }
    t->x.log=(uw)t->log; t->x.target=(uw)(block+L[t->loc].off); t->x.count=(uw)t->iters; t->x.param=(uw)t->p0; t->x.stride=(uw)t->stride; if(q->pert){ u64 z=rn(2)?(u64)1<<rn(8*(unsigned)q->size):rnd()&(mask(q->size)>>(rn(4)?0:rn(8*(unsigned)q->size))); if(!z) z=1; t->x.pert=(uw)z; } for(l=0;l<NS;l++) t->x.sent[l]=(uw)rnd();
#if !(defined SLJIT_LITTLE_ENDIAN && SLJIT_LITTLE_ENDIAN)
    if(q->t32){ t->x.param=(uw)(t->p0<<(8*(WS-4))); t->x.stride=(uw)(t->stride<<(8*(WS-4))); }
#endif
    if(!compile_(q)){ while(k>=0){ free(T_[k].log); if(T_[k].p.code) sljit_free_code(T_[k].p.code,0); k--; } return; } }
  if(o_print) for(k=0;k<nt;k++) printf("thread %d: op=0x%x size=%d at %d kind=%d tmp=%d sep=%d noload=%d spin=%d read=%d iters=%ld p0=%llx stride=%llx\n",k,(unsigned)T_[k].p.op,T_[k].p.size,L[T_[k].loc].off,T_[k].p.kind,T_[k].p.tmp,T_[k].p.sep,T_[k].p.cas_noload,T_[k].p.spin,T_[k].p.read,T_[k].iters,(unsigned long long)T_[k].p0,(unsigned long long)T_[k].stride);
  for(k=0;k<nt;k++) users[T_[k].loc]++;
  ready=0; gof=0; stopf=0; memset(werr,0,sizeof werr); memset(wcount,0,sizeof wcount);
  for(k=0;k<nw;k++){ wseed[k]=rnd(); if(pthread_create(&th[nt+k],0,writer,(void*)(intptr_t)k)) exit(9); } for(k=0;k<nt;k++) if(pthread_create(&th[k],0,worker,&T_[k])) exit(9);
  while(ready<nt+nw) sched_yield(); gof=1; __sync_synchronize();
  for(k=0;k<nt;k++) pthread_join(th[k],0); stopf=1; for(k=0;k<nw;k++){ pthread_join(th[nt+k],0); n_neigh+=wcount[k]; if(werr[k][0]){ fail("neighbour","%s",werr[k]); goto out; } }
  /* bytes nobody writes */
  for(k=0;k<BLK;k++) if(owner[k]==0){ n_gaps++; if(block[k]!=before[k]){ fail("neighbour","unused byte %d (locations start at %d) changed from %02x to %02x",k,base,before[k],block[k]); goto out; } }
  for(k=0;k<nt;k++){ thr*t=&T_[k]; prog*q=&t->p; u64 m=mask(q->size); long i; int some=0; snprintf(desc,sizeof desc,"op=0x%x size %d kind %d tmp %d sep %d noload %d read %d",(unsigned)q->op,q->size,q->kind,q->tmp,q->sep,q->cas_noload,q->read);
    if(t->x.fin[0]!=t->x.target||t->x.fin[1]!=t->x.target){ fail("register","%s: the address register changed",desc); goto out; }
    if(t->x.fin[2]!=(uw)(t->log+t->iters*4*WS)||t->x.count!=0){ fail("register","%s: the loop registers changed",desc); goto out; }
    for(l=0;l<q->nsent;l++){ n_reg++; if(t->x.sent[l]!=t->x.sentout[l]){ fail("register","%s: an unrelated register changed from %llx to %llx",desc,(unsigned long long)t->x.sent[l],(unsigned long long)t->x.sentout[l]); goto out; } }
    for(i=0;i<t->iters;i++){ u64 o=ent(t,i,0),nw_=ent(t,i,1),f=ent(t,i,2),tv=ent(t,i,3),pk=t->p0+(u64)i*t->stride,ex=q->kind==K_ADD?o+pk:q->kind==K_XOR?o^pk:pk; n_att++;
      if(f>1){ fail("flag","%s: the stored flag is %llx",desc,(unsigned long long)f); goto out; }
      if(f) n_suc++; else n_failed++;
      if(!f&&q->tmp==2) continue;
      if((nw_^ex)&(q->t32?0xffffffffULL:mask(WS))&(q->tmp==2?m:~0ULL)){ fail("source","%s: attempt %ld computed %llx from %llx, expected %llx",desc,i,(unsigned long long)nw_,(unsigned long long)o,(unsigned long long)ex); goto out; }
      { int sg=(q->op&0xff)==SLJIT_MOV_S8||(q->op&0xff)==SLJIT_MOV_S16||(q->op&0xff)==SLJIT_MOV_S32; u64 sx=(u64)((int64_t)(o<<(64-8*q->size))>>(64-8*q->size))&mask(WS); if(!q->t32&&o!=(o&m)&&!(sg&&o==sx)){ fail("extend","%s: attempt %ld loaded %llx",desc,i,(unsigned long long)o); goto out; } }
      if(q->pert&&(i!=t->iters)&&((t->iters-i)&1)){ n_pert++; }
      if(users[t->loc]==1&&!f&&(q->op&SLJIT_ATOMIC_USE_CAS)&&!(q->pert&&((t->iters-i)&1))){ fail("spurious","%s: attempt %ld failed, although the location had the expected value %llx",desc,i,(unsigned long long)o); goto out; }
      if(f) some=1;
      if(f&&tv!=o){ fail("temp","%s: attempt %ld: the temporary register changed from %llx to %llx after a success",desc,i,(unsigned long long)o,(unsigned long long)tv); goto out; } }
    if(users[t->loc]==1&&!some){ fail("spurious","%s: none of %ld attempts succeeded without any other thread",desc,t->iters); goto out; } }
  /* one total order of the successes */
  for(l=0;l<nl;l++){ u64 m=mask(L[l].size),fin=getn(block+L[l].off,L[l].size); long ne=0,e,r0; u64 (*E)[4]; n_loc++;
    for(k=0;k<nt;k++) if(T_[k].loc==l){ long i; for(i=0;i<T_[k].iters;i++) if(ent(&T_[k],i,2)) ne++; }
    E=malloc(sizeof(*E)*(size_t)(ne+1)); e=0; for(k=0;k<nt;k++) if(T_[k].loc==l){ long i; for(i=0;i<T_[k].iters;i++) if(ent(&T_[k],i,2)){ E[e][0]=ent(&T_[k],i,0)&m; E[e][1]=ent(&T_[k],i,1)&m; E[e][2]=(u64)k; E[e][3]=(u64)i; e++; } }
    V=malloc(sizeof(vert)*(size_t)(2*ne+2)); nv=0; for(e=0;e<ne;e++){ V[nv++].v=E[e][0]; V[nv++].v=E[e][1]; } V[nv++].v=L[l].init; V[nv++].v=fin; qsort(V,(size_t)nv,sizeof(vert),vcmp); { long a,b=0; for(a=0;a<nv;a++) if(!a||V[a].v!=V[b-1].v) V[b++].v=V[a].v; nv=b; } for(e=0;e<nv;e++){ V[e].bal=0; V[e].par=(int)e; }
    for(e=0;e<ne;e++){ long a=vfind(E[e][0]),b=vfind(E[e][1]); V[a].bal++; V[b].bal--; V[root(a)].par=(int)root(b); }
    V[vfind(L[l].init)].bal--; V[vfind(fin)].bal++;
    for(e=0;e<nv;e++) if(V[e].bal){ fail("history","location %d of %d bytes: value %llx is read by %s successful update than it is produced (initial %llx, final %llx, %ld successes)",l,L[l].size,(unsigned long long)V[e].v,V[e].bal>0?"one more":"one less",(unsigned long long)L[l].init,(unsigned long long)fin,ne); free(E); free(V); goto out; }
    r0=root(vfind(L[l].init)); for(e=0;e<ne;e++) if(root(vfind(E[e][0]))!=r0){ fail("history","location %d: the update %llx to %llx is not connected to the initial value",l,(unsigned long long)E[e][0],(unsigned long long)E[e][1]); free(E); free(V); goto out; }
    if(L[l].uniq){ /* the order is known: program order of each thread, and monotonic loads of failed attempts */
      long*next=malloc(sizeof(long)*(size_t)nv),*pos=malloc(sizeof(long)*(size_t)nv),p=0; u64 v=L[l].init,h=0; long cnt[MAXT]; int last=-1; for(e=0;e<nv;e++) next[e]=pos[e]=-1; for(e=0;e<ne;e++) next[vfind(E[e][0])]=e; for(k=0;k<MAXT;k++) cnt[k]=-1; pos[vfind(v)]=p++;
      while((e=next[vfind(v)])>=0&&p<=ne){ int w=(int)E[e][2]; if((long)E[e][3]<=cnt[w]){ fail("order","location %d: the updates of thread %d took effect out of order",l,w); break; } cnt[w]=(long)E[e][3]; if(w!=last){ n_sw++; last=w; } h=h*1099511628211ULL+(u64)w+1; v=E[e][1]; pos[vfind(v)]=p++; }
      if(p!=ne+1) fail("order","location %d: the chain has %ld of %ld updates",l,p-1,ne); inter(h);
      for(k=0;k<nt;k++) if(T_[k].loc==l&&T_[k].p.tmp!=2&&!T_[k].p.pert){ long i,lastp=-1; for(i=0;i<T_[k].iters;i++){ long z=vfind(ent(&T_[k],i,0)&m); if(z<0||pos[z]<0){ fail("history","location %d: attempt %ld of thread %d loaded %llx, which was never stored",l,i,k,(unsigned long long)ent(&T_[k],i,0)); break; } if(pos[z]<lastp){ fail("order","location %d: thread %d loaded an older value than before",l,k); break; } lastp=pos[z]; } }
      free(next); free(pos); }
    else { for(k=0;k<nt;k++) if(T_[k].loc==l&&!T_[k].p.pert){ long i; for(i=0;i<T_[k].iters;i++) if(vfind(ent(&T_[k],i,0)&m)<0){ fail("history","location %d: attempt %ld of thread %d loaded %llx, which was never stored",l,i,k,(unsigned long long)ent(&T_[k],i,0)); break; } if(i<T_[k].iters) break; } }
    free(E); free(V); }
out: for(k=0;k<nt;k++){ free(T_[k].log); sljit_free_code(T_[k].p.code,0); }
}
/* ---- barrier ---- */
typedef struct { void*code; uw*mine,*other,*out; volatile uw*me,*you; uw n; } bctx;
static void* bcomp(int kind,int variant)
{
  struct sljit_compiler*c=sljit_create_compiler(0); struct sljit_label*lp,*w; struct sljit_jump*j; (void)variant; void*code;
  /* S0 ctx, S1 mine, S2 other, R0 out, R1 round, R2 value */
  CK(sljit_emit_enter(c,0,SLJIT_ARGS1V(P),4,3,0));
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_S1,0,SLJIT_MEM1(SLJIT_S0),(sw)SLJIT_OFFSETOF(bctx,mine))); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_S2,0,SLJIT_MEM1(SLJIT_S0),(sw)SLJIT_OFFSETOF(bctx,other)));
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R1,0,SLJIT_IMM,1));
  lp=sljit_emit_label(c);
  /* rendezvous: publish the round, wait for the other thread */
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_MEM1(SLJIT_S0),(sw)SLJIT_OFFSETOF(bctx,me))); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_R0),0,SLJIT_R1,0)); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_MEM1(SLJIT_S0),(sw)SLJIT_OFFSETOF(bctx,you)));
  w=sljit_emit_label(c); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R2,0,SLJIT_MEM1(SLJIT_R0),0)); j=sljit_emit_cmp(c,SLJIT_LESS,SLJIT_R2,0,SLJIT_R1,0); sljit_set_label(j,w);
  { int k,n=(int)rn(12); for(k=0;k<n;k++) CK(sljit_emit_op0(c,SLJIT_NOP)); }
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S1),0,SLJIT_R1,0));
  if(kind) CK(sljit_emit_op0(c,SLJIT_MEMORY_BARRIER));
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R2,0,SLJIT_MEM1(SLJIT_S2),0));
  CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_MEM1(SLJIT_S0),(sw)SLJIT_OFFSETOF(bctx,out))); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM2(SLJIT_R0,SLJIT_R1),WS==8?3:2,SLJIT_R2,0));
  CK(sljit_emit_op2(c,SLJIT_ADD,SLJIT_S1,0,SLJIT_S1,0,SLJIT_IMM,128)); CK(sljit_emit_op2(c,SLJIT_ADD,SLJIT_S2,0,SLJIT_S2,0,SLJIT_IMM,128));
  CK(sljit_emit_op2(c,SLJIT_ADD,SLJIT_R1,0,SLJIT_R1,0,SLJIT_IMM,1)); j=sljit_emit_cmp(c,SLJIT_LESS_EQUAL,SLJIT_R1,0,SLJIT_MEM1(SLJIT_S0),(sw)SLJIT_OFFSETOF(bctx,n)); sljit_set_label(j,lp);
  CK(sljit_emit_return_void(c)); code=sljit_generate_code(c,0,0); sljit_free_compiler(c); if(!code) exit(9); n_prog++; return code;
}
static void*bworker(void*a){ bctx*b=a; void (SLJIT_FUNC *f)(void*)=(void(SLJIT_FUNC*)(void*))b->code; waitgo(); f(b); return 0; }
static void barrier(u64 seed,long scale)
{
  int kind; rs=sm(seed)|1;
  for(kind=0;kind<2;kind++){ long n=400*scale,i,both=0; u8*mem=aligned_alloc(128,(size_t)(n+2)*256); bctx b[2]; static volatile uw sync_[64]; pthread_t t[2]; memset(mem,0,(size_t)(n+2)*256); sync_[0]=sync_[32]=0;
    b[0].mine=(uw*)mem; b[0].other=(uw*)(mem+(n+2)*128); b[1].mine=b[0].other; b[1].other=b[0].mine;
    for(i=0;i<2;i++){ b[i].out=calloc((size_t)n+4,WS); b[i].me=&sync_[i*32]; b[i].you=&sync_[32-i*32]; b[i].n=(uw)n; b[i].code=bcomp(kind,0); if(!b[i].code) return; }
    ready=0; gof=0; for(i=0;i<2;i++) if(pthread_create(&t[i],0,bworker,&b[i])) exit(9); while(ready<2) sched_yield(); gof=1; for(i=0;i<2;i++) pthread_join(t[i],0);
    for(i=1;i<=n;i++){ if(b[0].out[i]==0&&b[1].out[i]==0) both++; else if((b[0].out[i]!=0&&b[0].out[i]!=(uw)i)||(b[1].out[i]!=0&&b[1].out[i]!=(uw)i)){ fail("value","round %ld: unexpected value",i); break; } }
    if(kind){ n_rounds+=n; form_seen("barrier"); if(both) fail("barrier","in %ld of %ld rounds neither thread saw the store the other made before its memory barrier",both,n); } else n_ctrl+=both;
    for(i=0;i<2;i++){ free(b[i].out); sljit_free_code(b[i].code,0); } free(mem); }
}
int main(int argc,char**argv)
{
  u64 seed=1; long count=10,scale=1,i; int k; static const int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGALRM};
  for(k=1;k<argc;k++){ char*e=strchr(argv[k],'='); if(!e) return 9; e++; if(!strncmp(argv[k],"seed=",5)) seed=strtoull(e,0,0); else if(!strncmp(argv[k],"count=",6)) count=atol(e); else if(!strncmp(argv[k],"profile=",8)) prof=e; else if(!strncmp(argv[k],"scale=",6)) scale=atol(e); else if(!strncmp(argv[k],"maxfail=",8)) maxfail=atoi(e); else if(!strncmp(argv[k],"print=",6)) o_print=atoi(e); else if(!strncmp(argv[k],"forms=",6)) fforms=fopen(e,"w"); else return 9; }
  setvbuf(stdout,0,_IOLBF,0); for(k=0;k<5;k++) signal(sg[k],onsig);
  cur=seed; find(); 
  if(strcmp(prof,"rmw")==0){ if(!nsup){ if(sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)) fail("support","the atomic feature is reported, but no operation is supported"); count=0; } }
  else if(!sljit_has_cpu_feature(SLJIT_HAS_MEMORY_BARRIER)) count=0;
  for(i=0;i<count&&nfail<maxfail;i++){ cur=seed+(u64)i; if(!strcmp(prof,"barrier")) barrier(cur,scale); else one(cur,scale); }
  printf("STAT runs=%ld programs=%ld locations=%ld attempts=%ld successes=%ld failed_attempts=%ld thread_switches=%ld distinct_interleavings=%ld neighbour_writes=%ld unused_bytes=%ld registers=%ld barrier_rounds=%ld control_reorderings=%ld provoked_failures=%ld supported_forms=%d fails=%ld\n",i,n_prog,n_loc,n_att,n_suc,n_failed,n_sw,n_inter,n_neigh,n_gaps,n_reg,n_rounds,n_ctrl,n_pert,nsup,nfail);
  return nfail?1:0;
}
