/* Calls between functions: a program is a tree of function activations (code compiled by sljit and C functions of every
   signature). Every activation runs straight-line code on concrete values, so the generator knows what each register, local
   and argument must hold at every point; the generated code logs them and the log is compared afterwards. */
#include "callsim.h"
#include "tramp.h"
#include <signal.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#if (defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
#define WS 8
#else
#define WS 4
#endif
#define NR SLJIT_NUMBER_OF_REGISTERS
#define NFR SLJIT_NUMBER_OF_FLOAT_REGISTERS
#define NSR SLJIT_NUMBER_OF_SAVED_REGISTERS
#define NFSR SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS
#define MR 40
enum { TV, TW, TL, TD, TF };                 /* void, word, int, double, float */
static u64 rs=1; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static int rn(int n){ return n>0?(int)((rnd()>>33)%(u32)n):0; }
static u64 splitmix(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static u64 wmask(u64 v){ return WS==8?v:(u32)v; }
static u64 rval(int t)
{
  u64 v=rnd(); switch(rn(5)){ case 0: v=(u64)(int64_t)(rn(512)-256); break; case 1: v=(u64)(int64_t)(s32)v; break; case 2: v>>=rn(60); break; }
  switch(t){ case TW: return wmask(v); case TL: return (u32)v; case TD: v=rnd(); if(((v>>52)&0x7ff)==0x7ff) v^=(u64)1<<60; return v; default: v=(u32)rnd(); if(((v>>23)&0xff)==0xff) v^=1u<<28; return v; }
}
/* ---------- program ---------- */
enum { O_SETR, O_SETF, O_SETL, O_LOGR, O_LOGF, O_LOGL, O_LOCB, O_CALL, O_SPLIT, O_RET, O_LOADTAB, O_PAD, O_RETTO, O_CONTLAB, O_MOVRR, O_MOVFF, O_FSUB, O_FAIL, O_STTAB };
typedef struct { int k, t, reg, reg2, fn, form, ret, cret, regarg, ctypes, src, lab; sw off; u64 v; int slot; } op;
#define MAXOPS 400
typedef struct { s32 opt, types, scr, sav, fscr, fsav, loc, keep, ret, regarg; int nargs; u8 at[4], ar[4]; op*ops; int nops; struct sljit_label*lab; int pidx; void*addr; int failslot; } fn;
#define MAXFN 60
static fn F[MAXFN]; static int nf;
#define MAXLOG 8000
static u64 logv[MAXLOG], expv[MAXLOG]; static u8 lt[MAXLOG]; static int nlog; static char lname[MAXLOG][40];
static sw tab[64];        /* function addresses */
static sw rtab[256];      /* return_to addresses */ static int nrt;
static u64 dat[64];       /* memory operands of returns */ static int ndat;
static uw failflag;
/* plan of the C functions, in execution order */
typedef struct { int ret,sig,nargs; u8 t[4]; u64 v[4]; u64 r; int nested; int nfn; u64 nv[4]; u64 nret; } cplan;
static cplan CP[200]; static int ncp, ccur; static char det[4096];
static void D_(const char*f,...){ va_list a; size_t l=strlen(det); va_start(a,f); vsnprintf(det+l,sizeof det-l,f,a); va_end(a); }
static long n_prog,n_logs,n_call,n_ccall,n_nest,n_split,n_retto,n_tail,n_patch,n_fn,n_args; static int bad;
#define HS (1u<<16)
static u64 hset[HS]; static u32 hn; static void hadd(u64 k){ u32 h=(u32)(splitmix(k)&(HS-1)); if(!k)k=1; while(hset[h]){ if(hset[h]==k) return; h=(h+1)&(HS-1); } if(hn<HS*3/4){ hset[h]=k; hn++; } }
#if (defined SLJIT_LITTLE_ENDIAN && SLJIT_LITTLE_ENDIAN)
#define BEO(op,full) 0
#else
/* narrow loads read the low part of the value */
#define BEO(op,full) ((full)-opsz(op))
static int opsz(int o){ switch(o&~SLJIT_32){ case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: return 4; default: return (o&SLJIT_32)?4:WS; } }
#endif
static u64 rdslot(const u64*p,int t){ uw w; u32 l; switch(t){ case TW: memcpy(&w,p,WS); return w; case TL: case TF: memcpy(&l,p,4); return l; default: return *p; } }
static int eqt(int t,u64 a,u64 b){ switch(t){ case TW: return wmask(a)==wmask(b); case TL: return (u32)a==(u32)b; case TF: return (u32)a==(u32)b; default: return a==b; } }
static int sigidx(int n,u8*t){ static const int base[5]={0,1,5,21,85}; int k,i=0; for(k=0;k<n;k++) i=i*4+(t[k]-TW); return base[n]+i; }
u64 c_called(int ret,int sig,u64*v,void*fa)
{
  cplan*p; int k; n_ccall++;
  if(ccur>=ncp){ if(!bad) D_(" unexpected call of a C function"); bad=1; return 0; }
  p=&CP[ccur++];
  if(p->ret!=ret||p->sig!=sig){ if(!bad) D_(" C function %d/%d called instead of %d/%d",ret,sig,p->ret,p->sig); bad=1; return 0; }
  for(k=0;k<p->nargs;k++){ n_args++; if(!eqt(p->t[k],v[k],p->v[k])){ if(!bad++) D_(" C call %d (ret %d sig %d) argument %d: got %llx expected %llx;",ccur-1,ret,sig,k,(unsigned long long)v[k],(unsigned long long)p->v[k]); } }
  if((uw)fa&15){ if(!bad++) D_(" stack misaligned in C function;"); }
  if(p->nested){ fn*f=&F[p->nfn]; u8 t[4]; u64 r; for(k=0;k<f->nargs;k++) t[k]=f->at[k]; n_nest++; r=cc_tab[f->ret][sigidx(f->nargs,t)](f->addr,p->nv);
    if(f->ret!=TV&&!eqt(f->ret,r,p->nret)){ if(!bad++) D_(" function %d called from C returned %llx expected %llx;",p->nfn,(unsigned long long)r,(unsigned long long)p->nret); } }
  return p->r;
}
/* ---------- generation ---------- */
typedef struct { u8 rk[MR],fk[MR]; u64 rv[MR],fv[MR]; int nl; sw lo[8]; u8 lk[8]; u64 lv[8]; } st;
static int has_fpu;
static op*addop(fn*f,int k){ op*o; if(f->nops>=MAXOPS-4){ fprintf(stderr,"HARNESS: ops\n"); exit(9); } o=&f->ops[f->nops++]; memset(o,0,sizeof*o); o->k=k; return o; }
static int isr(fn*f,int r){ return (r>=1&&r<=f->scr)||(r>SLJIT_S0-f->sav&&r<=SLJIT_S0); }
static int isf(fn*f,int r){ return (r>=1&&r<=f->fscr)||(r>SLJIT_FS0-f->fsav&&r<=SLJIT_FS0); }
static void setr(fn*f,st*s,int r,int t,u64 v){ op*o=addop(f,O_SETR); o->reg=r; o->t=t; o->v=v; s->rk[r]=(u8)t; s->rv[r]=v; }
static void setf(fn*f,st*s,int r,int t,u64 v){ op*o=addop(f,O_SETF); o->reg=r; o->t=t; o->v=v; s->fk[r]=(u8)t; s->fv[r]=v; }
static int newlog(int t,u64 v,const char*nm,int fi,int r){ if(nlog>=MAXLOG-1){ fprintf(stderr,"HARNESS: log\n"); exit(9); } lt[nlog]=(u8)t; expv[nlog]=v; snprintf(lname[nlog],40,"%s%d of function %d",nm,r,fi); return nlog++; }
static void logr(fn*f,st*s,int r){ op*o; if(!s->rk[r]) return; o=addop(f,O_LOGR); o->reg=r; o->t=s->rk[r]; o->slot=newlog(s->rk[r],s->rv[r],"register ",(int)(f-F),r); }
static void logf_(fn*f,st*s,int r){ op*o; if(!s->fk[r]) return; o=addop(f,O_LOGF); o->reg=r; o->t=s->fk[r]; o->slot=newlog(s->fk[r],s->fv[r],"float register ",(int)(f-F),r); }
static void logl(fn*f,st*s,int i){ op*o; if(!s->lk[i]) return; o=addop(f,O_LOGL); o->off=s->lo[i]; o->t=TW; o->form=rn(3); o->reg=1+rn(f->scr); if(o->reg>f->scr) o->form=0; else if(o->form==1&&s->rk[o->reg]&&0) o->form=0; 
  if(o->form){ if(!isr(f,o->reg)) o->form=0; else s->rk[o->reg]=0; } o->slot=newlog(TW,s->lv[i],"local ",(int)(f-F),(int)s->lo[i]); }
static void logall(fn*f,st*s,int p){ int r; for(r=1;r<=NR;r++) if(isr(f,r)&&s->rk[r]&&rn(100)<p) logr(f,s,r); for(r=1;r<=NFR;r++) if(isf(f,r)&&s->fk[r]&&rn(100)<p) logf_(f,s,r); for(r=0;r<s->nl;r++) if(rn(100)<p) logl(f,s,r); }
static int budget;
static void mkctx(fn*f,int wantret,int regarg,int keep)
{
  int k,tot,ni,nfl; memset(f,0,sizeof*f); f->ops=calloc(MAXOPS,sizeof(op)); f->regarg=regarg; f->keep=keep; f->ret=wantret; f->opt=regarg?SLJIT_ENTER_REG_ARG|SLJIT_ENTER_KEEP(keep):0;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
  if(rn(4)==0) f->opt|=SLJIT_ENTER_USE_VEX;
#endif
  switch(rn(4)){ case 0: f->sav=rn(NSR+1); f->scr=NR-f->sav-rn(3); break; case 1: f->sav=rn(4); f->scr=rn(4); break; case 2: f->sav=NSR; f->scr=1+rn(NR-NSR); break; default: f->sav=rn(NSR+1); f->scr=1+rn(NR-f->sav); }
  if(f->sav<keep) f->sav=keep; if(f->scr+f->sav>NR) f->scr=NR-f->sav; if(f->scr<0) f->scr=0;
  if(has_fpu&&rn(4)){ f->fsav=rn(NFSR+1); f->fscr=rn(NFR-f->fsav+1); if(rn(2)){ f->fscr=NFR-f->fsav; } }
  switch(rn(8)){ case 0: f->loc=0; break; case 1: case 2: f->loc=rn(64); break; case 3: f->loc=rn(600); break; case 4: { static const int t[]={128,256,512,1024,2048,4096,8192,16384,32768,65536}; f->loc=t[rn(10)]+rn(129)-64; break; } case 5: f->loc=rn(9000); break; case 6: f->loc=8*rn(20); break; default: f->loc=rn(4)?64+rn(256):rn(60000); }
  if(f->ret>=TD&&!has_fpu) f->ret=TW; if((f->ret==TL||f->ret==TW)&&f->scr<1){ f->scr=1; if(f->scr+f->sav>NR) f->sav=NR-1; } if(f->ret>=TD&&f->fscr<1){ f->fscr=1; if(f->fscr+f->fsav>NFR) f->fsav=NFR-1; }
  f->types=f->ret==TV?0:f->ret==TW?(rn(2)?SLJIT_ARG_TYPE_W:SLJIT_ARG_TYPE_P):f->ret==TL?SLJIT_ARG_TYPE_32:f->ret==TD?SLJIT_ARG_TYPE_F64:SLJIT_ARG_TYPE_F32;
  f->nargs=rn(5); tot=keep*0; ni=nfl=0;
  for(k=0;k<f->nargs;k++){
    int t=1+rn(has_fpu?4:2),ar=regarg||rn(2); s32 ty;
    if(t>=TD){ if(nfl+1>f->fscr){ f->nargs=k; break; } nfl++; ty=t==TD?SLJIT_ARG_TYPE_F64:SLJIT_ARG_TYPE_F32; }
    else { if(ar? ni+1>f->scr: tot+1>f->sav){ if(regarg){ f->nargs=k; break; } ar=!ar; if(ar? ni+1>f->scr: tot+1>f->sav){ f->nargs=k; break; } } if(!ar) tot++; ni++;
      ty=t==TL?SLJIT_ARG_TYPE_32:rn(2)?SLJIT_ARG_TYPE_W:SLJIT_ARG_TYPE_P; if(ar) ty|=SLJIT_ARG_TYPE_SCRATCH_REG; }
    f->at[k]=(u8)t; f->ar[k]=(u8)ar; f->types|=ty<<(4*(k+1)); }
}
static int pickknown(fn*f,st*s,int t){ int c[MR],n=0,r; for(r=1;r<=NR;r++) if(isr(f,r)&&s->rk[r]==t) c[n++]=r; return n?c[rn(n)]:0; }
static int pickr(fn*f){ int c[MR],n=0,r; for(r=1;r<=NR;r++) if(isr(f,r)) c[n++]=r; return n?c[rn(n)]:0; }
static int pickf(fn*f){ int c[MR],n=0,r; for(r=1;r<=NFR;r++) if(isf(f,r)) c[n++]=r; return n?c[rn(n)]:0; }
/* kv: values of S0..S2 on entry and exit (kept registers); rt: >=0 this activation leaves with return_to to address slot rt; returns the result */
static u64 genfn(int fi,u64*args,st*caller,int depth,int rt);
/* emits the argument setup and call of a C function or sljit function from f. tail: SLJIT_CALL_RETURN */
static u64 gencall(fn*f,st*s,int depth,int tail)
{
  int toC=!(f->regarg&&tail)&&(depth>=5||nf>=MAXFN-2||rn(3)==0||budget<=0),regarg=0,keep=0,k,ni=0,nfl=0,fi=-1,maxi=f->scr,maxf=f->fscr,nargs=0,ret,rt=-1; u8 at[4]; u64 av[4],rv=0; s32 types; op*o; op c; cplan*p=NULL;
  memset(&c,0,sizeof c); budget--;
  if(!toC){
    regarg=tail?f->regarg:rn(2); if(regarg&&rn(2)){ keep=rn(tail?f->keep+1:4); if(keep>f->sav) keep=f->sav; if(tail&&keep>f->keep) keep=f->keep; }
    for(k=0;k<20;k++){ fi=nf; mkctx(&F[fi],tail?f->ret:rn(5),regarg,keep); { int j,a=0,b=0; for(j=0;j<F[fi].nargs;j++) if(F[fi].at[j]>=TD) b++; else a++; if(a<=maxi&&b<=maxf&&!(F[fi].ret>=TD&&maxf<1)&&!((F[fi].ret==TW||F[fi].ret==TL)&&maxi<1)&&F[fi].ret==(tail?f->ret:F[fi].ret)) break; } free(F[fi].ops); fi=-1; }
    if(fi<0){ if(f->regarg&&tail) return 0; toC=1; regarg=keep=0; }
  }
  if(!toC){ nf++; nargs=F[fi].nargs; memcpy(at,F[fi].at,4); ret=F[fi].ret; }
  else { ret=tail?f->ret:rn(5); if(ret>=TD&&(maxf<1||!has_fpu)) ret=TV; if((ret==TW||ret==TL)&&maxi<1) ret=TV; nargs=rn(5); for(k=0;k<nargs;k++){ at[k]=(u8)(1+rn(4)); if(at[k]>=TD){ if(!has_fpu||nfl+1>maxf){ nargs=k; break; } nfl++; } else { if(ni+1>maxi){ nargs=k; break; } ni++; } } if(ret!=(tail?f->ret:ret)) return 0; }
  if(toC&&ncp>=190) return 0;
  /* kinds of call */
  c.fn=fi; c.regarg=regarg; c.cret=tail; c.ret=ret; ni=nfl=0; for(k=0;k<nargs;k++) if(at[k]>=TD) nfl++; else ni++;
  c.form=rn(7); c.src=0; if(toC&&c.form==6) c.form=1; if(!toC&&c.form==5) c.form=0; if(toC&&c.form==0) c.form=5; if(!toC&&c.form==1) c.form=6;
  /* 0 call label, 1 call with target address, 2 icall register, 3 icall local, 4 icall absolute memory / through register, 5 icall immediate, 6 rewritable call */
  if(c.form==2||(c.form==4&&rn(2))){ int cand[MR],n=0,r; for(r=1;r<=NR;r++) if(isr(f,r)&&!(r<=ni)&&!(r>SLJIT_S0-3&&(keep||f->keep))&&(c.form==2||sljit_get_register_index(SLJIT_GP_REGISTER,r)>=0)) cand[n++]=r; if(!n) c.form=toC?5:0; else c.src=cand[rn(n)]; }
  if(c.form==3){ if(f->loc<32||f->keep<0) c.form=toC?5:0; }
  for(k=0;k<nargs;k++){ av[k]=rval(at[k]); }
  if(c.form==3){ int q=0; for(k=0;k<s->nl;k++) if(s->lo[k]+8>f->loc-16) s->lk[k]=0; (void)q; c.off=((f->loc-16)&~7); }
  if(c.form>=2&&c.form<=4){ o=addop(f,O_LOADTAB); o->form=c.form; o->reg=c.src; o->off=c.off; o->fn=fi; o->ret=ret; o->lab=sigidx(nargs,at); if(c.src) s->rk[c.src]=0; }
  ni=nfl=0; for(k=0;k<nargs;k++){ if(at[k]>=TD) setf(f,s,SLJIT_FR(nfl++),at[k],av[k]); else setr(f,s,SLJIT_R(ni++),at[k],av[k]); }
  types=ret==TV?0:ret==TW?SLJIT_ARG_TYPE_W:ret==TL?SLJIT_ARG_TYPE_32:ret==TD?SLJIT_ARG_TYPE_F64:SLJIT_ARG_TYPE_F32; if(tail) types=f->types&15; else if(ret==TW&&rn(2)) types=SLJIT_ARG_TYPE_P;
  for(k=0;k<nargs;k++) types|=(at[k]==TW?(rn(2)?SLJIT_ARG_TYPE_W:SLJIT_ARG_TYPE_P):at[k]==TL?SLJIT_ARG_TYPE_32:at[k]==TD?SLJIT_ARG_TYPE_F64:SLJIT_ARG_TYPE_F32)<<(4*(k+1));
  c.ctypes=types; c.k=O_CALL; c.lab=sigidx(nargs,at); c.t=nargs;
  /* leave the callee with return_to now and then */
  if(!toC&&!tail&&nrt<200&&F[fi].scr>=1&&rn(5)==0&&(nargs==0||regarg)) { rt=nrt++; }
  f->ops[f->nops]=c; o=&f->ops[f->nops++]; if(rt>=0){ op*q; f->ops[f->nops-1].slot=rt; q=addop(f,O_FAIL); q=addop(f,O_CONTLAB); q->slot=rt; }
  hadd((u64)c.form|(u64)regarg<<4|(u64)keep<<6|(u64)tail<<9|(u64)toC<<10|(u64)ret<<12|(u64)c.lab<<16|(u64)(rt>=0)<<32|(u64)f->regarg<<33|(u64)f->keep<<34); n_call++; if(tail) n_tail++; if(rt>=0) n_retto++;
  if(toC){ p=&CP[ncp++]; memset(p,0,sizeof*p); p->ret=ret; p->sig=c.lab; p->nargs=nargs; memcpy(p->t,at,4); memcpy(p->v,av,sizeof av);
    if(depth<5&&nf<MAXFN-2&&budget>0&&rn(3)==0){ int g=nf++,j; budget--; mkctx(&F[g],rn(5),0,0); p->nested=1; p->nfn=g; for(j=0;j<F[g].nargs;j++) p->nv[j]=rval(F[g].at[j]); hadd((u64)1<<50|(u64)sigidx(F[g].nargs,F[g].at)<<8|(u64)F[g].ret); { u64 r=genfn(g,p->nv,NULL,depth+1,-1); p->nret=r; } }
    rv=p->r=ret==TV?0:rval(ret); }
  else rv=genfn(fi,av,regarg?s:NULL,depth+1,rt);
  if(tail) return rv;
  for(k=1;k<=f->scr;k++) s->rk[k]=0; for(k=1;k<=f->fscr;k++) s->fk[k]=0;
  if(rt>=0){ s->rk[SLJIT_R0]=TW; s->rv[SLJIT_R0]=rv; if(f->scr<1) s->rk[SLJIT_R0]=0; }
  else if(ret==TW||ret==TL){ s->rk[SLJIT_R0]=(u8)ret; s->rv[SLJIT_R0]=rv; } else if(ret>=TD){ s->fk[SLJIT_FR0]=(u8)ret; s->fv[SLJIT_FR0]=rv; }
  logall(f,s,70); return rv;
}
static u64 genfn(int fi,u64*args,st*caller,int depth,int rt)
{
  fn*f=&F[fi]; st s; int k,n,ns=0,nr=0,nfl=0; op*o; u64 rv=0; memset(&s,0,sizeof s); n_fn++;
  if(f->keep&&caller) for(k=0;k<f->keep;k++){ s.rk[SLJIT_S(k)]=caller->rk[SLJIT_S(k)]; s.rv[SLJIT_S(k)]=caller->rv[SLJIT_S(k)]; }
  for(k=0;k<f->nargs;k++){ int t=f->at[k]; if(t>=TD){ s.fk[SLJIT_FR(nfl)]=(u8)t; s.fv[SLJIT_FR(nfl)]=args[k]; nfl++; } else { int r=f->ar[k]?SLJIT_R(nr):SLJIT_S(ns++); nr++; s.rk[r]=(u8)t; s.rv[r]=args[k]; } }
  logall(f,&s,95);
  /* locals */
  if(f->loc>=8) for(k=0;k<6;k++){ sw of; int j,ok=1; switch(rn(4)){ case 0: of=0; break; case 1: of=f->loc-WS; break; default: of=rn(f->loc-7); } of&=~7; if(of+8>f->loc){ of-=8; } if(of<0||of+8>f->loc) continue; for(j=0;j<s.nl;j++) if(s.lo[j]==of) ok=0; if(!ok) continue; s.lo[s.nl]=of; s.lk[s.nl]=1; s.lv[s.nl]=rval(TW); o=addop(f,O_SETL); o->off=of; o->v=s.lv[s.nl]; o->form=rn(3); s.nl++; }
  for(k=1;k<=NR;k++) if(isr(f,k)&&rn(4)&&!(s.rk[k]&&rn(2))) setr(f,&s,k,1+rn(2),0), s.rv[k]=f->ops[f->nops-1].v=rval(s.rk[k]);
  for(k=1;k<=NFR;k++) if(isf(f,k)&&rn(4)&&!(s.fk[k]&&rn(2))){ int t=TD+rn(2); setf(f,&s,k,t,rval(t)); }
  n=2+rn(7);
  while(n-->0){
    switch(rn(12)){
    case 0: k=pickr(f); if(k){ int t=1+rn(2); setr(f,&s,k,t,rval(t)); } break;
    case 1: k=pickf(f); if(k){ int t=TD+rn(2); setf(f,&s,k,t,rval(t)); } break;
    case 2: if(s.nl){ k=rn(s.nl); if(s.lk[k]){ s.lv[k]=rval(TW); o=addop(f,O_SETL); o->off=s.lo[k]; o->v=s.lv[k]; o->form=rn(3); } } break;
    case 3: logall(f,&s,30); break;
    case 4: if(f->nops<MAXOPS-100){ addop(f,O_SPLIT); n_split++; } break;
    case 5: { int a=pickknown(f,&s,TW),b=pickr(f); if(a&&b){ o=addop(f,O_MOVRR); o->reg=b; o->reg2=a; s.rk[b]=TW; s.rv[b]=s.rv[a]; } break; }
    case 6: o=addop(f,O_PAD); o->v=(u64)(rn(8)?rn(20):rn(3000)); break;
    case 7: if(s.nl){ k=rn(s.nl); if(s.lk[k]){ int r=pickr(f); if(r&&sljit_get_register_index(SLJIT_GP_REGISTER,r)>=0){ o=addop(f,O_LOCB); o->off=s.lo[k]; o->reg=r; s.rk[r]=0; s.lv[k]=rval(TL); o->v=s.lv[k]=wmask((u64)(int64_t)(s32)s.lv[k]); } } } break;
    default: if(f->nops<MAXOPS-150&&nlog<MAXLOG-1500) gencall(f,&s,depth,0); }
  }
  logall(f,&s,80);
  if(f->nops<MAXOPS-100&&rn(4)==0){ addop(f,O_SPLIT); n_split++; }
  if(rt>=0){ /* leave with return_to */
    int form=rn(3),r=0; o=NULL; rv=rval(TW);
    if(form==0){ r=pickr(f); if(!r||r==SLJIT_R0||(f->keep&&r>SLJIT_S0-3)) form=1; } if(form==2&&(f->loc<32)) form=1;
    if(form==0||form==2){ o=addop(f,O_LOADTAB); o->form=form==0?12:13; o->reg=r; o->off=(f->loc-16)&~7; o->slot=rt; if(r) s.rk[r]=0; }
    if(f->scr>=1) setr(f,&s,SLJIT_R0,TW,rv); else rv=0;
    o=addop(f,O_RETTO); o->form=form; o->reg=r; o->off=(f->loc-16)&~7; o->slot=rt; if(f->scr<1) rv=~(u64)0;
  } else {
    u64 t; if(depth>0&&f->nops<MAXOPS-60&&rn(4)==0&&nlog<MAXLOG-1500){ int before=f->nops; t=gencall(f,&s,depth,1); if(f->nops>before&&f->ops[f->nops-1].k==O_CALL){ rv=t; goto done; } }
    o=addop(f,O_RET); o->t=f->ret; o->form=rn(4);
    if(f->ret==TW){ int r=pickknown(f,&s,TW); int isp=(f->types&15)==SLJIT_ARG_TYPE_P; static const s32 ops[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32}; o->ctypes=isp?SLJIT_MOV_P:ops[rn(7)];
      if(o->form==0&&r){ o->reg=r; rv=s.rv[r]; } else if(o->form==1&&s.nl&&s.lk[0]){ o->off=s.lo[0]; rv=s.lv[0]; if(o->ctypes!=SLJIT_MOV&&o->ctypes!=SLJIT_MOV_P) o->ctypes=SLJIT_MOV; } else if(o->form==2&&ndat<60){ o->slot=ndat; rv=rval(TW); { uw w=(uw)rv; memcpy(&dat[ndat],&w,WS); } ndat++; if(o->ctypes!=SLJIT_MOV_P) o->ctypes=SLJIT_MOV; } else { o->form=3; o->v=rv=rval(TW); }
      switch(o->ctypes){ case SLJIT_MOV_U8: rv=(u8)rv; break; case SLJIT_MOV_S8: rv=wmask((u64)(int64_t)(int8_t)rv); break; case SLJIT_MOV_U16: rv=(uint16_t)rv; break; case SLJIT_MOV_S16: rv=wmask((u64)(int64_t)(int16_t)rv); break; case SLJIT_MOV_U32: rv=(u32)rv; break; case SLJIT_MOV_S32: rv=wmask((u64)(int64_t)(s32)rv); break; } 
      if(WS==4&&(o->ctypes==SLJIT_MOV_U32||o->ctypes==SLJIT_MOV_S32)) o->ctypes=SLJIT_MOV; }
    else if(f->ret==TL){ int r=pickknown(f,&s,TL); static const s32 ops[]={SLJIT_MOV32,SLJIT_MOV32_U8,SLJIT_MOV32_S8,SLJIT_MOV32_U16,SLJIT_MOV32_S16}; o->ctypes=ops[rn(5)]; if(o->form==0&&r){ o->reg=r; rv=s.rv[r]; } else if(o->form==2&&ndat<60){ u32 w; o->slot=ndat; rv=rval(TL); w=(u32)rv; memcpy(&dat[ndat],&w,4); ndat++; o->ctypes=SLJIT_MOV32; } else { o->form=3; o->v=rv=rval(TL); }
      switch(o->ctypes){ case SLJIT_MOV32_U8: rv=(u8)rv; break; case SLJIT_MOV32_S8: rv=(u32)(int8_t)rv; break; case SLJIT_MOV32_U16: rv=(uint16_t)rv; break; case SLJIT_MOV32_S16: rv=(u32)(int16_t)rv; break; } }
    else if(f->ret>=TD){ int c[MR],m=0,r; for(r=1;r<=NFR;r++) if(isf(f,r)&&s.fk[r]==f->ret) c[m++]=r; if(m&&rn(3)){ o->form=0; o->reg=c[rn(m)]; rv=s.fv[o->reg]; } else if(ndat<60){ o->form=2; o->slot=ndat; rv=rval(f->ret); if(f->ret==TF){ u32 w=(u32)rv; memcpy(&dat[ndat],&w,4); } else memcpy(&dat[ndat],&rv,8); ndat++; } else { if(f->fscr+f->fsav){ f->nops--; r=pickf(f); setf(f,&s,r,f->ret,rval(f->ret)); rv=s.fv[r]; o=addop(f,O_RET); o->t=f->ret; o->reg=r; o->form=0; } else { fprintf(stderr,"HARNESS: ret\n"); exit(9); } } }
    else if(f->ret==TV) rv=0;
    if(f->ret==TW||f->ret==TL) { if(f->scr<1){ } }
  }
done:
  if(caller&&f->keep) for(k=0;k<f->keep;k++){ caller->rk[SLJIT_S(k)]=s.rk[SLJIT_S(k)]; caller->rv[SLJIT_S(k)]=s.rv[SLJIT_S(k)]; }
  return rv;
}
/* ---------- emission ---------- */
static struct sljit_jump *pj[64][2]; static int npj; static struct { struct sljit_jump*j; int fn; } cj[400]; static int ncj; static struct { uw a; int fn; struct sljit_jump*j; } rj[200]; static int nrj;
static struct sljit_label *rl[256]; static struct { struct sljit_jump*j; } conts[MAXFN*40];
static int e_err; static int o_print; static int o_serial; static long n_ser; static u64 ssd; static u32 sr(u32 n){ ssd=splitmix(ssd); return (u32)((ssd>>20)%n); }
/* serialize, free and restore the compiler; labels and jumps are found again by their position in the lists */
static struct sljit_jump **extraj; static struct { int fn; int at; struct sljit_jump*from; } pend[MAXFN*60]; static int npend;
static int reser(struct sljit_compiler**pc)
{
  static void*ol[8000],*oj[8000],*nl[8000],*njp[8000]; int a=0,b=0,x=0,y=0,k,z; struct sljit_label*l; struct sljit_jump*j; uw sz,*buf; struct sljit_compiler*c=*pc;
  for(l=sljit_get_first_label(c);l;l=sljit_get_next_label(l)) if(a<8000) ol[a++]=l; for(j=sljit_get_first_jump(c);j;j=sljit_get_next_jump(j)) if(b<8000) oj[b++]=j;
  buf=sljit_serialize_compiler(c,0,&sz); if(!buf) return 1; sljit_free_compiler(c); c=sljit_deserialize_compiler(buf,sz,0,NULL); memset(buf,0x5a,sz); free(buf); *pc=c; if(!c) return 2; n_ser++;
  for(l=sljit_get_first_label(c);l;l=sljit_get_next_label(l)) if(x<8000) nl[x++]=l; for(j=sljit_get_first_jump(c);j;j=sljit_get_next_jump(j)) if(y<8000) njp[y++]=j;
  if(a!=x||b!=y) return 3;
#define FIXL(p) if(p) for(z=0;z<a;z++) if((void*)(p)==ol[z]){ (p)=nl[z]; break; }
#define FIXJ(p) if(p) for(z=0;z<b;z++) if((void*)(p)==oj[z]){ (p)=njp[z]; break; }
  for(k=0;k<nf;k++) FIXL(F[k].lab); for(k=0;k<256;k++) FIXL(rl[k]); for(k=0;k<ncj;k++) FIXJ(cj[k].j); for(k=0;k<nrj;k++) FIXJ(rj[k].j); for(k=0;k<npend;k++) FIXJ(pend[k].from); if(extraj) FIXJ(*extraj);
  return 0;
}
static void RS(struct sljit_compiler**pc);
static void E_(int r,const char*w,int fi,int oi){ if(r!=SLJIT_SUCCESS&&!e_err){ e_err=1; D_(" %s rejected with %d in function %d operation %d",w,r,fi,oi); } }
static void RS(struct sljit_compiler**pc){ int r; if(!o_serial||e_err||sr(40)>=(u32)o_serial) return; r=reser(pc); if(r){ e_err=1; D_(" serialization failed (%s)",r==1?"serialize":r==2?"deserialize":"labels or jumps lost"); } }
static int dumpf(struct sljit_compiler**pcc,fn*f,int from,struct sljit_jump**out)
{
  int k,fi=(int)(f-F); s32 rsp=SLJIT_SP; (void)rsp; *out=NULL;
  for(k=from;k<f->nops;k++){
    op*o=&f->ops[k]; int r=0; RS(pcc); if(e_err) return f->nops;
    switch(o->k){
    case O_SETR: r=sljit_emit_op1((*pcc),o->t==TL?SLJIT_MOV32:SLJIT_MOV,o->reg,0,SLJIT_IMM,o->t==TL?(sw)(s32)o->v:(sw)(uw)o->v); break;
    case O_SETF: if(o->t==TF) r=sljit_emit_fset32((*pcc),o->reg,fromF(o->v)); else r=sljit_emit_fset64((*pcc),o->reg,fromD(o->v)); break;
    case O_SETL: r=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),o->off,SLJIT_IMM,(sw)(uw)o->v); break;
    case O_LOGR: r=sljit_emit_op1((*pcc),o->t==TL?SLJIT_MOV32:SLJIT_MOV,SLJIT_MEM0(),(sw)&logv[o->slot],o->reg,0); break;
    case O_LOGF: r=sljit_emit_fop1((*pcc),o->t==TF?SLJIT_MOV_F32:SLJIT_MOV_F64,SLJIT_MEM0(),(sw)&logv[o->slot],o->reg,0); break;
    case O_LOGL: if(o->form){ r=sljit_emit_op1((*pcc),SLJIT_MOV,o->reg,0,SLJIT_MEM1(SLJIT_SP),o->off); r|=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM0(),(sw)&logv[o->slot],o->reg,0); } else r=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM0(),(sw)&logv[o->slot],SLJIT_MEM1(SLJIT_SP),o->off); break;
    case O_LOCB: r=sljit_get_local_base((*pcc),o->reg,0,o->off-16); r|=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM1(o->reg),16,SLJIT_IMM,(sw)(uw)o->v); break;
    case O_MOVRR: r=sljit_emit_op1((*pcc),SLJIT_MOV,o->reg,0,o->reg2,0); break;
    case O_PAD: { u64 n; for(n=0;n<o->v;n++) r|=sljit_emit_op0((*pcc),SLJIT_NOP); break; }
    case O_LOADTAB: { sw a=o->form>=12?(sw)&rtab[o->slot]:o->fn>=0?(sw)&tab[o->fn]:0; sw v=o->fn<0&&o->form<12?(sw)cs_tab[o->ret][o->lab]:0;
       if(o->form==4){ if(o->reg) r=sljit_emit_op1((*pcc),SLJIT_MOV,o->reg,0,SLJIT_IMM,o->fn>=0?a-24:(sw)&dat[63]-24); if(o->fn<0) r|=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM0(),(sw)&dat[63],SLJIT_IMM,v); break; }
       if(o->form==2||o->form==12){ if(a) r=sljit_emit_op1((*pcc),SLJIT_MOV_P,o->reg,0,SLJIT_MEM0(),a); else r=sljit_emit_op1((*pcc),SLJIT_MOV,o->reg,0,SLJIT_IMM,v); }
       else { if(a) r=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),o->off,SLJIT_MEM0(),a); else r=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),o->off,SLJIT_IMM,v); } break; }
    case O_CALL: { s32 ty=(o->regarg?SLJIT_CALL_REG_ARG:SLJIT_CALL)|(o->cret?SLJIT_CALL_RETURN:0); struct sljit_jump*j; void*ca=o->fn<0?cs_tab[o->ret][o->lab]:NULL;
       switch(o->form){ case 0: j=sljit_emit_call((*pcc),ty,o->ctypes); if(!j){ r=99; break; } cj[ncj].fn=o->fn; cj[ncj++].j=j; break;
         case 1: j=sljit_emit_call((*pcc),ty,o->ctypes); if(!j){ r=99; break; } sljit_set_target(j,(uw)ca); break;
         case 6: j=sljit_emit_call((*pcc),ty|SLJIT_REWRITABLE_JUMP,o->ctypes); if(!j){ r=99; break; } rj[nrj].fn=o->fn; rj[nrj++].j=j; break;
         case 2: r=sljit_emit_icall((*pcc),ty,o->ctypes,o->src,0); break; case 3: r=sljit_emit_icall((*pcc),ty,o->ctypes,SLJIT_MEM1(SLJIT_SP),o->off); break;
         case 4: if(o->src) r=sljit_emit_icall((*pcc),ty,o->ctypes,SLJIT_MEM1(o->src),24); else r=sljit_emit_icall((*pcc),ty,o->ctypes,SLJIT_MEM0(),o->fn>=0?(sw)&tab[o->fn]:(sw)&dat[63]); break;
         default: r=sljit_emit_icall((*pcc),ty,o->ctypes,SLJIT_IMM,(sw)ca); } break; }
    case O_SPLIT: *out=sljit_emit_jump((*pcc),SLJIT_JUMP); if(!*out) E_(99,"jump",fi,k); return k+1;
    case O_FAIL: r=sljit_emit_op1((*pcc),SLJIT_MOV,SLJIT_MEM0(),(sw)&failflag,SLJIT_IMM,1); break;
    case O_CONTLAB: rl[o->slot]=sljit_emit_label(*pcc); if(!rl[o->slot]) r=99; break;
    case O_RETTO: r=o->form==0?sljit_emit_return_to((*pcc),o->reg,0):o->form==2?sljit_emit_return_to((*pcc),SLJIT_MEM1(SLJIT_SP),o->off):sljit_emit_return_to((*pcc),SLJIT_MEM0(),(sw)&rtab[o->slot]); break;
    case O_RET: if(o->t==TV) r=sljit_emit_return_void(*pcc); else if(o->t<TD){ if(o->form==0) r=sljit_emit_return((*pcc),o->ctypes,o->reg,0); else if(o->form==1) r=sljit_emit_return((*pcc),o->ctypes,SLJIT_MEM1(SLJIT_SP),o->off+BEO(o->ctypes,WS)); else if(o->form==2) r=sljit_emit_return((*pcc),o->ctypes,SLJIT_MEM0(),(sw)&dat[o->slot]+BEO(o->ctypes,o->t==TL?4:WS)); else r=sljit_emit_return((*pcc),o->ctypes,SLJIT_IMM,o->t==TL?(sw)(s32)o->v:(sw)(uw)o->v); }
       else { s32 q=o->t==TF?SLJIT_MOV_F32:SLJIT_MOV_F64; if(o->form==0) r=sljit_emit_return((*pcc),q,o->reg,0); else r=sljit_emit_return((*pcc),q,SLJIT_MEM0(),(sw)&dat[o->slot]); } break;
    }
    E_(r,o->k==O_CALL?"call":"operation",fi,k); if(sljit_get_compiler_error(*pcc)) E_(sljit_get_compiler_error(*pcc),"error",fi,k); if(e_err) return f->nops;
  }
  return f->nops;
}
static void printp(void)
{ int i,k; for(i=0;i<nf;i++){ fn*f=&F[i]; printf("function %d: options %x types %x ret %d scratches %d saveds %d fscr %d fsav %d local %d\n",i,(unsigned)f->opt,(unsigned)f->types,f->ret,f->scr,f->sav,f->fscr,f->fsav,f->loc);
  for(k=0;k<f->nops;k++){ op*o=&f->ops[k]; static const char*n[]={"set","fset","setlocal","log","flog","loglocal","localbase","call","split","return","loadaddr","pad","return_to","contlabel","mov","fmov","","fail"}; printf("  %3d %s t%d r%d r%d fn%d form%d ret%d cret%d regarg%d ctypes %x src%d off%ld v%llx slot%d\n",k,n[o->k],o->t,o->reg,o->reg2,o->fn,o->form,o->ret,o->cret,o->regarg,(unsigned)o->ctypes,o->src,(long)o->off,(unsigned long long)o->v,o->slot); } } }
#define STKSZ (4u<<20)
static u8*stk,*topstk; static u8 stkpat[8192]; static sigjmp_buf jb; static volatile int armed,phase;
static void onsig(int s){ if(!armed) _exit(70); armed=0; siglongjmp(jb,s); }
static void setup(void)
{ int k; stack_t ss; struct sigaction sa; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGTRAP,SIGALRM};
  stk=mmap(0,STKSZ+65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(stk,65536,PROT_NONE); topstk=stk+65536+STKSZ-8192;
  memset(&ss,0,sizeof ss); ss.ss_size=1<<16; ss.ss_sp=malloc(1<<16); sigaltstack(&ss,0); memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(k=0;k<7;k++) sigaction(sg[k],&sa,0);
  for(k=0;k<8192;k++) stkpat[k]=(u8)splitmix((u64)k); }
static const char*fkind;
static int one(u64 seed)
{
  struct sljit_compiler*c; int k,rc=0; void*code; u64 ea[4],rv; st nost; sw eo; (void)nost;
  for(k=0;k<nf;k++) free(F[k].ops); nf=0; nlog=nrt=ndat=ncp=ccur=npj=ncj=nrj=0; det[0]=0; fkind=""; bad=0; e_err=0; failflag=0; memset(rl,0,sizeof rl); memset(dat,0,sizeof dat);
  rs=splitmix(seed)|1; rnd(); rnd(); n_prog++; phase=0; budget=rn(3)?6+rn(10):3;
  { int tries=0; do { if(tries) free(F[0].ops); mkctx(&F[0],rn(5),0,0); tries++; for(k=0;k<F[0].nargs;k++) if(F[0].at[k]>=TD) break; } while(k<F[0].nargs); } nf=1;
  for(k=0;k<F[0].nargs;k++) ea[k]=F[0].at[k]==TL?(u32)rval(TL):rval(TW);
  rv=genfn(0,ea,NULL,0,-1);
  if(o_print) printp();
  /* emit the pieces in random order */
  phase=1; npend=0; extraj=NULL; ssd=seed^0x77; c=sljit_create_compiler(NULL); if(!c) return 0;
  for(k=0;k<nf;k++){ pend[npend].fn=k; pend[npend].at=0; pend[npend++].from=NULL; }
  while(npend>0&&!e_err){
    int i=rn(npend),fi=pend[i].fn,at=pend[i].at; struct sljit_jump*j=pend[i].from,*out=NULL; fn*f=&F[fi]; struct sljit_label*l; s32 scr=f->scr|SLJIT_ENTER_FLOAT(f->fscr),sav=f->sav|SLJIT_ENTER_FLOAT(f->fsav); int r,nx; pend[i]=pend[--npend]; extraj=&j; RS(&c); if(e_err) break;
    if(rn(3)==0){ /* unused code between functions */ if(sljit_emit_enter(c,0,SLJIT_ARGS0V(),1+rn(3),rn(3),rn(200))==0){ sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,1); sljit_emit_return_void(c); } }
    if(at==0){ if(rn(2)){ l=sljit_emit_label(c); r=sljit_emit_enter(c,f->opt,f->types,scr,sav,f->loc); } else { l=sljit_emit_aligned_label(c,rn(2)?SLJIT_LABEL_ALIGN_16:SLJIT_LABEL_ALIGN_4,NULL); r=sljit_emit_enter(c,f->opt,f->types,scr,sav,f->loc); } f->lab=l; }
    else { if(rn(2)){ r=sljit_set_context(c,f->opt,f->types,scr,sav,f->loc); l=sljit_emit_label(c); } else { l=sljit_emit_label(c); r=sljit_set_context(c,f->opt,f->types,scr,sav,f->loc); } sljit_set_label(j,l); }
    extraj=NULL;
    if(!l) r=98; E_(r,at?"set_context":"enter",fi,at); if(e_err) break;
    nx=dumpf(&c,f,at,&out); if(out){ pend[npend].fn=fi; pend[npend].at=nx; pend[npend++].from=out; }
  }
  if(e_err){ fkind="rejected"; if(c) sljit_free_compiler(c); return 1; }
  RS(&c); for(k=0;k<ncj;k++) sljit_set_label(cj[k].j,F[cj[k].fn].lab);
  for(k=0;k<nrj;k++) sljit_set_label(rj[k].j,F[rn(nf)].lab);
  RS(&c); if(e_err){ fkind="rejected"; if(c) sljit_free_compiler(c); return 1; }
  phase=2; code=sljit_generate_code(c,0,NULL); if(!code){ fkind="nocode"; D_(" error %d",sljit_get_compiler_error(c)); sljit_free_compiler(c); return 1; }
  eo=sljit_get_executable_offset(c);
  for(k=0;k<nf;k++){ F[k].addr=(void*)sljit_get_label_addr(F[k].lab); if(k<64) tab[k]=(sw)F[k].addr; }
  for(k=0;k<nrt;k++) rtab[k]=rl[k]?(sw)sljit_get_label_addr(rl[k]):0;
  for(k=0;k<nrj;k++){ sljit_set_jump_addr(sljit_get_jump_addr(rj[k].j),(uw)F[rj[k].fn].addr,eo); n_patch++; }
  sljit_free_compiler(c);
  for(k=0;k<nlog;k++) logv[k]=~expv[k];
  /* run */
  { u8*tp=topstk-16*(1+rn(8)); u64 u; uw w; struct itimerval it; 
#if defined __mips64 || defined __riscv || defined __loongarch__ || defined __s390x__ || defined __powerpc64__
#define SXARG(v) (u64)(int64_t)(s32)(v)
#else
#define SXARG(v) (u64)(u32)(v)
#endif
    memcpy(tp,stkpat,(size_t)(topstk+8192-tp)<8192?(size_t)(topstk+8192-tp):8192); 
    for(k=0;k<T_SIZE;k++) tramp_buf[k]=(u8)splitmix((u64)k+seed);
    w=(uw)F[0].addr; memset(tramp_buf+T_FN,0,8); memcpy(tramp_buf+T_FN,&w,WS); for(k=0;k<4;k++){ u64 v=k<F[0].nargs?ea[k]:0; if(k<F[0].nargs&&F[0].at[k]==TL) v=SXARG(v); w=(uw)v; memset(tramp_buf+T_ARG+8*k,0,8); memcpy(tramp_buf+T_ARG+8*k,&w,WS); }
    u=F[0].ret==TD?1:F[0].ret==TF?2:0; memcpy(tramp_buf+T_FKIND,&u,8); w=(uw)tp; memset(tramp_buf+T_STK,0,8); memcpy(tramp_buf+T_STK,&w,WS);
    memset(&it,0,sizeof it); it.it_value.tv_sec=20; setitimer(ITIMER_REAL,&it,0); phase=3; tramp(tramp_buf); phase=4; memset(&it,0,sizeof it); setitimer(ITIMER_REAL,&it,0);
    if(bad){ fkind="calls"; rc=1; }
    if(failflag&&!rc){ fkind="return_to"; D_(" the call returned although the callee used return_to"); rc=1; }
    for(k=0;k<nlog;k++){ n_logs++; if(!eqt(lt[k],rdslot(&logv[k],lt[k]),expv[k])){ if(!rc) fkind="value"; if(rc<3) D_(" %s: got %llx expected %llx (log %d);",lname[k],(unsigned long long)rdslot(&logv[k],lt[k]),(unsigned long long)expv[k],k); rc++; } }
    if(!bad&&ccur!=ncp){ fkind="calls"; D_(" %d C calls, expected %d",ccur,ncp); rc=1; }
    { uw sp=0; memcpy(&sp,tramp_buf+T_SPAFTER,WS); if(sp!=(uw)tp){ fkind="sp"; D_(" stack pointer %lx expected %lx;",(long)sp,(long)(uw)tp); rc=1; } }
    for(k=TR_HOME;k<4096;k++) if(tp[k]!=stkpat[k]){ fkind="callerstack"; D_(" caller stack byte +%d changed;",k); rc=1; break; }
    for(k=0;k<TR_NS;k++){ u64 a=0,b=0; memcpy(&a,tramp_buf+T_SIN+8*k,WS); memcpy(&b,tramp_buf+T_SOUT+8*k,WS);
#if defined __powerpc__
      if(k==18){ u32 m=0x00fff000; uw x,y; memcpy(&x,tramp_buf+T_SIN+8*k,WS); memcpy(&y,tramp_buf+T_SOUT+8*k,WS); a=x&m; b=y&m; }
#endif
      if(a!=b){ fkind="savedreg"; D_(" saved register %s %llx -> %llx;",tr_names[k],(unsigned long long)a,(unsigned long long)b); rc=1; } }
#ifndef __i386__
    for(k=0;k<TR_NF;k++) if(memcmp(tramp_buf+T_FIN+8*k,tramp_buf+T_FOUT+8*k,8)){ fkind="savedfreg"; D_(" saved float register #%d changed;",k); rc=1; }
#endif
    { u64 g=0; if(F[0].ret==TD) memcpy(&g,tramp_buf+T_FRET,8); else if(F[0].ret==TF){ u32 q; memcpy(&q,tramp_buf+T_FRET32,4); g=q; } else { uw q; memcpy(&q,tramp_buf+T_RET,WS); g=q; } if(F[0].ret!=TV&&!eqt(F[0].ret,g,rv)){ fkind="return"; D_(" return value %llx expected %llx;",(unsigned long long)g,(unsigned long long)rv); rc=1; } }
  }
  sljit_free_code(code,NULL); return rc!=0;
}
int main(int argc,char**argv)
{
  u64 seed=1; long count=100,k; int j,nfail=0,maxf=5; const char*forms=NULL; volatile u64 vs;
  for(j=1;j<argc;j++){ char*e=strchr(argv[j],'='); if(!e) continue; *e++=0; if(!strcmp(argv[j],"seed")) seed=strtoull(e,0,0); else if(!strcmp(argv[j],"count")) count=atol(e); else if(!strcmp(argv[j],"print")) o_print=atoi(e); else if(!strcmp(argv[j],"forms")) forms=e; else if(!strcmp(argv[j],"maxfail")) maxf=atoi(e); else if(!strcmp(argv[j],"serial")) o_serial=atoi(e); }
  setvbuf(stdout,NULL,_IOLBF,1<<16); setup(); { struct sljit_compiler*c=sljit_create_compiler(NULL); sljit_free_compiler(c); } has_fpu=sljit_has_cpu_feature(SLJIT_HAS_FPU)!=0;
  for(k=0;k<count;k++){ int sg; vs=seed+(u64)k; armed=1; sg=sigsetjmp(jb,1);
    if(sg){ struct itimerval it; memset(&it,0,sizeof it); setitimer(ITIMER_REAL,&it,0); D_(" signal %d in phase %d",sg,phase); fkind=sg==SIGALRM?"hang":phase==3?"crash":phase==0?"harness":"libcrash"; j=1; } else j=one(vs);
    armed=0; if(j){ printf("FAIL calls seed=%llu kind=%s%s\n",(unsigned long long)vs,fkind,det); fflush(stdout); if(!strcmp(fkind,"harness")) return 9; if(++nfail>=maxf) break; } }
  printf("STAT programs=%ld runs=%ld functions=%ld calls_generated=%ld c_functions_called=%ld nested_calls_from_c=%ld arguments_checked=%ld values_checked=%ld tail_calls=%ld return_to=%ld context_splits=%ld call_rewrites=%ld serializations=%ld call_forms=%u fails=%d\n",n_prog,n_prog,n_fn,n_call,n_ccall,n_nest,n_args,n_logs,n_tail,n_retto,n_split,n_patch,n_ser,hn,nfail);
  if(forms){ FILE*f=fopen(forms,"w"); u32 h; if(f){ for(h=0;h<HS;h++) if(hset[h]) fprintf(f,"%llx\n",(unsigned long long)hset[h]); fclose(f); } }
  return nfail?1:0;
}
