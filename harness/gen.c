/* Random program generator. Programs are safe for every input: memory operands use statically known addresses,
   divisors and shift amounts are forced into range, loops have protected counters. */
#include "eng.h"
ins prog[MAXINS]; int np; int label_pc[MAXLAB]; int nlab;
u64 rs=1;
prof P;
int c_scr,c_sav,c_fscr,c_fsav,c_vscr,c_vsav,c_loc,c_ret; s32 c_opt; int has_fpu,has_simd;
int nconst; sw constv[2000]; s32 constop[2000]; int swtarget[MAXINS];
u8 *buf;

struct sljit_compiler *probe;
enum { T_U, T_W, T_I, T_LB };           /* integer register types */
enum { F_U, F_64, F_32 };
typedef struct { u8 rt[MAXREG]; u8 rk[MAXREG]; sw rv[MAXREG]; u8 ft[MAXREG], fx[MAXREG]; u8 vs[MAXREG]; } tst; /* static types */
static tst S; static u64 lock, flock, vlock; /* locked registers */
static u64 permlock; /* locked for a region */
static int gz,gvar,g32,gadd,gcmpu; /* static flag state: Z valid, variable flag type (-1 none), 32 bit, 1 add 2 sub */
static int gord; /* set by float compare */
static int dead, logp_, scrp, ctrp, depth, insub, inloop;
typedef struct { tst t; int seen; int id; } olab;
struct win wins[4]; int nwin; int c_args,c_nargs; u8 c_argt[4],c_argr[4]; robuf robs[64]; int nrob; u8 robdata[65536]; int robused; int nopsize=4;
static u64 touched, ftouched, vtouched;

int isreg(int r){ return (r>=SLJIT_R0&&r<SLJIT_R0+c_scr)||(r>SLJIT_S0-c_sav&&r<=SLJIT_S0); }
int isfreg(int r){ return (r>=SLJIT_FR0&&r<SLJIT_FR0+c_fscr)||(r>SLJIT_FS0-c_fsav&&r<=SLJIT_FS0); }
#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
#define SEPV 1
#else
#define SEPV 0
#endif
/* Vector and float registers overlap on most targets: even numbered ones are used for vectors then. */
static int vpairs;
static int vclass(int r){ if(SEPV) return 0; if(!has_simd||!P.vecs) return 0; return ((r-1)>>1)&1; }
int isvreg(int r){ if(!has_simd||!P.vecs) return 0; if(SEPV) return (r>=SLJIT_VR0&&r<SLJIT_VR0+c_vscr)||(r>SLJIT_VS0-c_vsav&&r<=SLJIT_VS0);
  return isfreg(r)&&vclass(r)&&(!vpairs||(!((r-1)&1)&&(r+1<SLJIT_FR0+c_fscr||r>SLJIT_FS0-c_fsav)&&r+1<=SLJIT_FS0)); }
static int usefreg(int r){ return isfreg(r)&&(SEPV||!vclass(r)); }
int addr_ok(int r){ return sljit_get_register_index(SLJIT_GP_REGISTER,r)>=0; }

u64 rimm(void)
{
  u64 v; int k;
  switch(rn(16)){
  case 0: case 1: return (u64)(i64)((int)rn(33)-16);
  case 2: case 3: k=rn(64); v=(u64)1<<k; v+=(u64)(i64)((int)rn(5)-2); break;
  case 4: k=rn(64); v=0-((u64)1<<k); v+=(u64)(i64)((int)rn(5)-2); break;
  case 5: { int w=rn(WBITS)+1,s=rn(WBITS); v= w==64? ~(u64)0 : (((u64)1<<w)-1); v=(v<<s)|(s? v>>(64-s):0); break; }
  case 6: v=rnd()&0xfff; if(rn(2)) v=~v; break;
  case 7: v=rnd()&0xffff; if(rn(2)) v=0-v; break;
  case 8: v=(rnd()&0xff)<<rn(56); if(rn(3)==0) v=~v; break;
  case 9: { u64 e=rnd(); int sz=1<<rn(4); if(sz>8)sz=8; v=0; for(k=0;k<64;k+=sz*8) v|=(e&(sz==8?~(u64)0:(((u64)1<<(sz*8))-1)))<<k; break; }
  case 10: v=rnd()&0xffffffff; break;
  case 11: v=(u64)(i64)(s32)rnd(); break;
  case 12: v=rnd()&~(u64)0xffff; if(rn(2)) v=(u64)(i64)(s32)v; break;
  case 13: v=(rnd()&0xffff)<<(16*rn(4)); break;
  case 14: { static const u64 t[]={0x7fffffff,0x80000000u,0xffffffffu,0x7fffffffffffffffULL,0x8000000000000000ULL,0x7ff,0x800,0xfff,0x1000,0x7fff,0x8000,0xffff,0x10000,0xfffff000u,0x12345678,
       0x100000000ULL,0xffffffff00000000ULL,0xffffffff80000000ULL,0xffffffff7fffffffULL,0x7ffff,0x80000,0xfffff,0x100000,0xff,0x100,0x7f,0x80,0x7ffff800,0x7ffff7ff,0x7ffff000}; v=t[rn(sizeof t/sizeof*t)]; if(rn(4)==0)v=0-v; break; }
  default: v=rnd();
  }
  return v;
}
static sw rimmw(void){ return (sw)rimm(); }
static sw rimm32(void){ u64 v=rimm(); return (sw)(s32)v; }
u64 rf64(void)
{
  static const u64 t[]={0,0x8000000000000000ULL,0x3ff0000000000000ULL,0xbff0000000000000ULL,0x7ff0000000000000ULL,0xfff0000000000000ULL,1,0x8000000000000001ULL,0x000fffffffffffffULL,0x0010000000000000ULL,
   0x7fefffffffffffffULL,0xffefffffffffffffULL,0x41dfffffffc00000ULL,0xc1e0000000000000ULL,0x41e0000000000000ULL,0xc1e0000000200000ULL,0x41dfffffffe00000ULL,0x43e0000000000000ULL,0xc3e0000000000000ULL,0x43dfffffffffffffULL,
   0x43efffffffffffffULL,0x43f0000000000000ULL,0x41efffffffe00000ULL,0x41f0000000000000ULL,0x3fe0000000000000ULL,0xbfe0000000000000ULL,0x3fdfffffffffffffULL,0xbff8000000000000ULL,0x4004000000000000ULL,0x36a0000000000000ULL,0x369fffffffffffffULL,0x47efffffe0000000ULL,0x47efffffefffffffULL,0x47effffff0000000ULL,0x3810000000000000ULL,0x380fffffc0000000ULL};
  double d; u64 u; int k;
  switch(rn(10)){
  case 0: case 1: case 2: return t[rn(sizeof t/sizeof*t)];
  case 3: if(P.nan&&rn(3)==0){ u=rnd()|0x7ff0000000000000ULL; if(!(u&0xfffffffffffffULL)) u|=1; return u; } /* fall through */
  case 4: d=(double)(i64)rimm(); break;
  case 5: d=(double)(s32)rimm(); break;
  case 6: d=(double)((int)rn(2001)-1000)/4; break;
  case 7: u=rnd(); k=(int)((u>>52)&0x7ff); if(k==0x7ff) u^=(u64)1<<60; return u;
  case 8: d=(double)(float)(i64)rimm(); break;
  default: u=(rnd()&0x800fffffffffffffULL)|((u64)(1023-70+rn(140))<<52); return u;
  }
  memcpy(&u,&d,8); return u;
}
u32 rf32(void)
{
  static const u32 t[]={0,0x80000000u,0x3f800000,0xbf800000u,0x7f800000,0xff800000u,1,0x80000001u,0x007fffff,0x00800000,0x7f7fffff,0xff7fffffu,0x4effffff,0x4f000000,0xcf000000u,0xcf000001u,0x4f7fffff,0x4f800000,0x5effffff,0x5f000000,0xdf000000u,0x5f7fffff,0x5f800000,0x3f000000,0xbf000000u,0x3effffff};
  float d; u32 u;
  switch(rn(8)){
  case 0: case 1: return t[rn(sizeof t/sizeof*t)];
  case 2: if(P.nan&&rn(3)==0){ u=(u32)rnd()|0x7f800000; if(!(u&0x7fffff)) u|=1; return u; } /* fall through */
  case 3: d=(float)(i64)rimm(); break;
  case 4: d=(float)((int)rn(2001)-1000)/4; break;
  case 5: u=(u32)rnd(); if(((u>>23)&0xff)==0xff) u^=1u<<29; return u;
  default: u=((u32)rnd()&0x807fffff)|((127-40+rn(80))<<23); return u;
  }
  memcpy(&u,&d,4); return u;
}

/* ---------- helpers ---------- */
static ins *add(int kind,s32 op){ ins*i; if(np>=MAXINS-8){fprintf(stderr,"program too long\n");exit(9);} i=&prog[np++]; memset(i,0,sizeof*i); i->kind=kind; i->op=op; i->lab=-1; return i; }
static int newlab(void){ if(nlab>=MAXLAB){fprintf(stderr,"too many labels\n");exit(9);} label_pc[nlab]=-1; return nlab++; }
static void noflags(void){ gz=0; gvar=-1; gord=0; gadd=0; gcmpu=0; }
static int cond_ok(int c);
static int is32arch(void){ return WS==4; }
static void settype(int r,int t){ if(t==T_I&&is32arch()) t=T_W; S.rt[r]=(u8)t; S.rk[r]=0; touched|=(u64)1<<r; }
static void setconst(int r,sw v){ S.rt[r]=T_W; S.rk[r]=1; S.rv[r]=v; touched|=(u64)1<<r; }
static void setf(int r,int t,int x){ S.ft[r]=(u8)t; S.fx[r]=(u8)x; ftouched|=(u64)1<<r; }
#define LK(r) (lock>>(r)&1)
#define PLK(r) (permlock>>(r)&1)
static int typeok(int r,int t){ if(t==T_I&&is32arch()) t=T_W; return S.rt[r]==t; }

/* pick a register satisfying constraint; returns 0 if none */
static int pick_reg(int type,int writable,int unlocked,int addressable)
{
  int c[MAXREG],n=0,r; for(r=1;r<=NR;r++){ if(!isreg(r)) continue; if(type&&!typeok(r,type)) continue; if(writable&&PLK(r)) continue; if(unlocked&&LK(r)) continue; if(addressable&&!addr_ok(r)) continue; c[n++]=r; }
  if(!n) return 0;
  /* prefer extremes now and then */
  return c[rn(n)];
}
static int pick_dst(void){ int r=pick_reg(0,1,0,0); return r; }
static int pick_freg(int type,int writable,int unlocked){ int c[MAXREG],n=0,r; for(r=1;r<=NFR;r++){ if(!usefreg(r)) continue; if(type&&S.ft[r]!=type) continue; (void)writable; if(unlocked&&(flock>>r&1)) continue; c[n++]=r; } return n?c[rn(n)]:0; }

static void e_movimm(int r,sw v){ ins*i=add(K_OP1,SLJIT_MOV); i->d=r; i->a=SLJIT_IMM; i->aw=v; setconst(r,v); }
static void e_movimm32(int r,sw v){ ins*i=add(K_OP1,SLJIT_MOV32); i->d=r; i->a=SLJIT_IMM; i->aw=v; settype(r,T_I); }

/* register of given type: creates one when needed. locked registers are not modified */
static int need_reg(int type)
{
  int r=pick_reg(type,0,0,0); if(r&&!(rn(30)==0)) return r;
  { int q=pick_reg(0,1,1,0); if(!q) return r; r=q; }
  if(type==T_W||is32arch()) e_movimm(r,rimmw()); else e_movimm32(r,rimm32());
  return r;
}
static sw offimm(void)
{ /* offsets around encoding limits */
  switch(rn(12)){
  case 10: case 11: { /* at all scales around a power of two */ int k=rn(31),m=rn(k+1); sw v=(sw)1<<k,d=(sw)(rnd()&(((u64)1<<m)-1)); v+=rn(2)?d:-d; if(rn(2)) v&=~(sw)7; else if(rn(3)==0) v&=~(sw)3; return rn(2)?v:-v; }
  case 0: return 0;
  case 1: return (sw)((int)rn(65)-32)*(1<<rn(4));
  case 2: { static const sw t[]={255,256,-255,-256,-257,4095,4096,-4095,-4096,2047,2048,-2048,-2049,32767,32768,-32768,-32769,65535,65536,-65536,1020,1024,-1020,508,512,16380,16384,32760,32764,131068,131072,0x7ffff,0x80000,-0x80000,-0x80001,0x7fffff,0x800000,0xfff000,0x1000000,124,128,252,62,64,31,32,504,8190,8191,16383,-4088,-2044,0x7ffff7ff,0x7ffff800,0x7fff7fff,0x7fff8000,0x7fffffff}; sw v=t[rn(sizeof t/sizeof*t)]; v+=(sw)((int)rn(5)-2)*(sw)rn(5); return rn(4)?v:-v; }
  case 3: return (sw)(s32)((rnd()&0xffff)-0x8000);
  case 4: return (sw)(s32)((rnd()&0x1fff)-0x1000);
  case 5: return (sw)(s32)((rnd()&0x1fffff)-0x100000);
  case 6: return (sw)(s32)rnd();
  case 7: return rimmw();
  case 8: return (sw)(s32)((rnd()&0x1ff)-0x100);
  default: return (sw)(int)rn(4096);
  }
}
static int intargets; /* when set target the int region only */
/* choose target address (absolute value as sw, or local offset with *loc=1) */
static sw pick_target(int size,int align,int region,int *loc)
{
  int o; *loc=0;
  if(nwin&&(region==0||region==3)&&rn(3)==0){ struct win*w=&wins[rn(nwin)]; int n=w->size-size; if(n>=0){ o=w->off+(n? (int)rn(n+1):0); o-=o%align; if(o<w->off) o+=align; if(o+size<=w->off+w->size){ *loc=1; return o; } } }
  if(region==0||region==3){ o=OFF_INT+rn(SZ_INT-size+1); }
  else if(region==1){ o= size==8? OFF_FLT+8*(int)rn(64): OFF_F32+4*(int)rn(128); return (sw)((uw)buf+(uw)o); }
  else { o=OFF_VEC+rn(SZ_VEC-size+1); }
  o-=o%align; return (sw)((uw)buf+(uw)o);
}
/* build a memory operand; fixed=1: only forms usable for mem_update */
static void mem_operand_for(sw target,int loc,s32*arg,sw*argw)
{
  int r,q,sh,mode=rn(100);
  if(loc){
    /* registers holding local addresses */
    if(mode<12){ int c[MAXREG],n=0; for(r=1;r<=NR;r++) if(isreg(r)&&S.rt[r]==T_LB&&addr_ok(r)) c[n++]=r;
      if(n){ r=c[rn(n)]; *arg=SLJIT_MEM1(r); *argw=(sw)((uw)target-(uw)S.rv[r]); lock|=(u64)1<<r; return; } }
    if(mode<25&&(r=pick_reg(0,1,1,1))){ sw off=rn(3)?target-offimm():target; ins*i=add(K_LOCB,0); i->d=r; i->aw=off; settype(r,T_LB); S.rv[r]=off; noflags();
      *arg=SLJIT_MEM1(r); *argw=target-off; lock|=(u64)1<<r; return; }
    *arg=SLJIT_MEM1(SLJIT_SP); *argw=target; return;
  }
  if(mode<15){ *arg=SLJIT_MEM0(); *argw=target; return; }
  if(mode<40){ /* reuse a known register with whatever offset results */
    int c[MAXREG],n=0; for(r=1;r<=NR;r++) if(isreg(r)&&S.rk[r]&&S.rt[r]==T_W&&addr_ok(r)) c[n++]=r;
    if(n){ r=c[rn(n)]; *arg=SLJIT_MEM1(r); *argw=(sw)((uw)target-(uw)S.rv[r]); lock|=(u64)1<<r; return; } }
  if(mode<72){ r=pick_reg(0,1,1,1); if(r){ sw off=offimm(); e_movimm(r,(sw)((uw)target-(uw)off)); *arg=SLJIT_MEM1(r); *argw=off; lock|=(u64)1<<r; return; } }
  if(mode<96){
    sh=rn(4); r=pick_reg(0,1,1,1);
    if(r){ lock|=(u64)1<<r; 
      if(rn(16)==0){ /* base and index are the same register */
        if((sh==0&&!((uw)target&1))||(sh==1&&(uw)target%3==0)||(sh==2&&(uw)target%5==0)||(sh==3&&(uw)target%9==0)){
          e_movimm(r,(sw)((uw)target/(sh==0?2:sh==1?3:sh==2?5:9))); *arg=SLJIT_MEM2(r,r); *argw=sh; return; } }
      q=pick_reg(0,1,1,1);
      if(q){ sw idx; lock|=(u64)1<<q;
        if(rn(3)==0&&S.rk[q]&&S.rt[q]==T_W) idx=S.rv[q]; else { switch(rn(4)){ case 0: idx=(sw)rn(64); break; case 1: idx=-(sw)rn(64); break; case 2: idx=rimmw(); break; default: idx=(sw)(s32)rnd()>>rn(24); } e_movimm(q,idx); }
        e_movimm(r,(sw)((uw)target-((uw)idx<<sh)));
        *arg=SLJIT_MEM2(r,q); *argw=sh; return; }
      e_movimm(r,target); *arg=SLJIT_MEM1(r); *argw=0; return; } }
  *arg=SLJIT_MEM0(); *argw=target;
}
#if (defined SLJIT_UNALIGNED && SLJIT_UNALIGNED)
#define UNAL 1
#else
#define UNAL 0
#endif
#if (defined SLJIT_FPU_UNALIGNED && SLJIT_FPU_UNALIGNED)
#define FUNAL 1
#else
#define FUNAL 0
#endif
static int fconv; /* integer operand of a float instruction */
static void gen_mem(int size,s32*arg,sw*argw){ int loc,al=size; sw t; if(UNAL&&rn(4)==0&&(FUNAL||!fconv)) al=1; t=pick_target(size,al,0,&loc); mem_operand_for(t,loc,arg,argw); }
/* exact=1: value bits known (int/vec region too) */
static void gen_fmem(int size,int exact,s32*arg,sw*argw){ int loc=0; sw t; int al=size; if(exact&&FUNAL&&rn(4)==0) al=1; t=pick_target(size,al,exact?3:1,&loc); mem_operand_for(t,loc,arg,argw); }

static int opw(s32 op){ return (op&SLJIT_32)?4:WS; }
static void lockreg(s32 a){ if(a>0&&a<SLJIT_IMM) lock|=(u64)1<<a; }
/* source operand for an op of width w (4 or 8) */
/* integers next to the rounding boundaries of float numbers */
static sw roundval(int w){ int k=(w==4||rn(2))?24:53,e; u64 v; e=k+2+(int)rn((u32)(w*8-k-1)); v=(((u64)1<<(k-1))|(rnd()&(((u64)1<<(k-1))-1)))<<(e-k); v+=(u64)1<<(e-k-1); v+=(u64)((i64)rn(3)-1); if(rn(8)==0) v=((u64)1<<(e-1))+(u64)((i64)rn(5)-2); if(rn(2)) v=0-v; return w==4?(sw)(s32)v:(sw)v; }
static void gen_src(int w,int immok,s32*a,sw*aw)
{
  int type=(w==4)?T_I:T_W; int k=rn(100);
  if(k<P.memp){ gen_mem(w,a,aw); return; }
  if(immok&&k<P.memp+P.immp){ *a=SLJIT_IMM; *aw= w==4? rimm32():rimmw(); return; }
  { int r=pick_reg(type,0,0,0); if(!r||rn(40)==0){ int q=pick_reg(0,1,1,0); if(q){ r=q; if(w==4&&!is32arch()) e_movimm32(r,rimm32()); else e_movimm(r,rimmw()); } }
    if(!r){ if(immok){ *a=SLJIT_IMM; *aw= w==4? rimm32():rimmw(); } else gen_mem(w,a,aw); return; }
    *a=r; *aw=0; lockreg(r); }
}
static void gen_dst(int w,s32*a,sw*aw){ int r; if(rn(100)<(u32)P.memp||!(r=pick_dst())){ gen_mem(w,a,aw); return; } *a=r; *aw=0; }
static void fin_dst(s32 d,int type){ if(d>0&&d<SLJIT_IMM) settype(d,type); }
static void begin(void){ lock=permlock; flock=0; vlock=0; }
/* log a register value into the log area */
static void logreg(int r){ ins*i; if(logp_+8>SZ_LOG||inloop) return; i=add(K_OP1,S.rt[r]==T_W?SLJIT_MOV:SLJIT_MOV32); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+OFF_LOG+(uw)logp_); i->a=r; logp_+=8;
  if(rn(2)){ int q,c[MAXREG],n=0; for(q=1;q<=NR;q++) if(isreg(q)&&S.rk[q]&&S.rt[q]==T_W&&addr_ok(q)) c[n++]=q; if(n){ q=c[rn(n)]; i->dw=(sw)((uw)i->dw-(uw)S.rv[q]); i->d=SLJIT_MEM1(q); } } }
static void maybe_log(s32 d){ if(d>0&&d<SLJIT_IMM&&(S.rt[d]==T_W||S.rt[d]==T_I)&&pc(P.logp)) logreg(d); }

/* ---------- instruction generators ---------- */
static void g_op1(void)
{
  static const s32 ops[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_P,SLJIT_MOV32,SLJIT_MOV32_U8,SLJIT_MOV32_S8,SLJIT_MOV32_U16,SLJIT_MOV32_S16,SLJIT_MOV_U32,SLJIT_MOV_S32,
    SLJIT_CLZ,SLJIT_CTZ,SLJIT_REV,SLJIT_REV_U16,SLJIT_REV_S16,SLJIT_REV_U32,SLJIT_REV_S32,SLJIT_CLZ32,SLJIT_CTZ32,SLJIT_REV32,SLJIT_REV32_U16,SLJIT_REV32_S16};
  s32 op=ops[rn(sizeof ops/sizeof*ops)],base=op&0xff; int sz,w=opw(op),dt; ins t; s32 d; sw dw; ins*i;
  begin(); memset(&t,0,sizeof t);
  if(base==SLJIT_MOV32) w=4;
  if(is32arch()&&(op==SLJIT_REV_U32||op==SLJIT_REV_S32)&&rn(2)) op=SLJIT_REV_U16,base=op;
  switch(base){ case SLJIT_MOV_U8: case SLJIT_MOV_S8: sz=1; break; case SLJIT_MOV_U16: case SLJIT_MOV_S16: case SLJIT_REV_U16: case SLJIT_REV_S16: sz=2; break;
    case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: case SLJIT_REV_U32: case SLJIT_REV_S32: sz=4; break; default: sz=w; }
  /* source */
  if(rn(100)<(u32)P.memp) gen_mem(sz,&t.a,&t.aw);
  else if(pc(P.immp)){ t.a=SLJIT_IMM; t.aw= w==4? rimm32():rimmw(); if(base==SLJIT_MOV_U32||base==SLJIT_MOV_S32) t.aw=rimm32(); }
  else { int r=0; if(base==SLJIT_MOV32||base==SLJIT_MOV_U32||base==SLJIT_MOV_S32) r=rn(2)?pick_reg(T_W,0,0,0):pick_reg(T_I,0,0,0);
    if(!r) r=need_reg(w==4&&base!=SLJIT_MOV32?T_I:T_W); if(!r) gen_mem(sz,&t.a,&t.aw); else { t.a=r; lockreg(r);} }
  if(rn(100)<(u32)P.memp) gen_mem(sz,&d,&dw); else { d=pick_dst(); dw=0; if(!d) gen_mem(sz,&d,&dw); }
  dt= w==4?T_I:T_W;
  if(base>=SLJIT_CLZ) noflags();
  i=add(K_OP1,op); i->d=d; i->dw=dw; i->a=t.a; i->aw=t.aw;
  if(d<SLJIT_IMM){ if(op==SLJIT_MOV&&t.a==SLJIT_IMM) setconst(d,t.aw); else if(op==SLJIT_MOV&&t.a<SLJIT_IMM&&S.rk[t.a]) setconst(d,S.rv[t.a]); else fin_dst(d,dt); maybe_log(d); }
}
static const s32 z_ops[]={SLJIT_ADD,SLJIT_SUB,SLJIT_AND,SLJIT_OR,SLJIT_XOR,SLJIT_SHL,SLJIT_MSHL,SLJIT_LSHR,SLJIT_MLSHR,SLJIT_ASHR,SLJIT_MASHR};
static int pick_vflag(s32 base){ static const int sub[]={SLJIT_LESS,SLJIT_GREATER,SLJIT_SIG_LESS,SLJIT_SIG_GREATER,SLJIT_OVERFLOW,SLJIT_CARRY};
  switch(base){ case SLJIT_ADD: return rn(2)?SLJIT_OVERFLOW:SLJIT_CARRY; case SLJIT_SUB: return sub[rn(6)]; case SLJIT_MUL: return SLJIT_OVERFLOW; case SLJIT_ADDC: case SLJIT_SUBC: return SLJIT_CARRY; } return -1; }
static int shiftbase(s32 b){ return b>=SLJIT_SHL&&b<=SLJIT_MASHR; }
static int maskedshift(s32 op){ s32 b=op&0xff; if(b==SLJIT_MSHL||b==SLJIT_MLSHR||b==SLJIT_MASHR) return 1;
#if (defined SLJIT_MASKED_SHIFT && SLJIT_MASKED_SHIFT)
  if(!(op&SLJIT_32)) return 1;
#endif
#if (defined SLJIT_MASKED_SHIFT32 && SLJIT_MASKED_SHIFT32)
  if(op&SLJIT_32) return 1;
#endif
  return 0; }
/* make register r hold an in-range shift amount (returns register) */
static int ranged_reg(int w,int nonzero,int lim)
{
  int r=pick_reg(0,1,1,0),type=w==4?T_I:T_W; ins*i; if(!r) return 0;
  if(rn(3)==0){ sw v=(sw)rn((u32)lim); if(nonzero&&!v) v=1; if(w==4) e_movimm32(r,v); else e_movimm(r,v); return r; }
  if(!typeok(r,type)){ if(w==4) e_movimm32(r,rimm32()); else e_movimm(r,rimmw()); }
  i=add(K_OP2,SLJIT_AND|(w==4?SLJIT_32:0)); i->d=r; i->a=r; i->b=SLJIT_IMM; i->bw=lim-1; settype(r,type);
  if(nonzero){ i=add(K_OP2,SLJIT_OR|(w==4?SLJIT_32:0)); i->d=r; i->a=r; i->b=SLJIT_IMM; i->bw=1; settype(r,type); }
  noflags(); return r;
}
static void setflags_after(s32 op)
{
  gz=!!(op&SLJIT_SET_Z); gvar=(op>>10)&0x3f; if(!gvar) gvar=-1; g32=!!(op&SLJIT_32); gord=0; gadd=0; gcmpu=0;
  if(gz||gvar>=0){ s32 b=op&0xff; if(b==SLJIT_ADD||b==SLJIT_ADDC) gadd=1; if(b==SLJIT_SUB||b==SLJIT_SUBC) gadd=2; }
}
/* operands for a two operand instruction */
static void gen_2src(s32 op,ins*t)
{
  int w=opw(op); s32 b=op&0xff;
  if(shiftbase(b)||b==SLJIT_ROTL||b==SLJIT_ROTR){
    if(pc(40)){ t->b=SLJIT_IMM; t->bw= rn(4)?(sw)rn((u32)w*8):(w==4?rimm32():rimmw()); }
    else if(b==SLJIT_ROTL||b==SLJIT_ROTR||maskedshift(op)) gen_src(w,0,&t->b,&t->bw);
    else { int r=ranged_reg(w,0,w*8); if(r){ t->b=r; lockreg(r);} else { t->b=SLJIT_IMM; t->bw=rn((u32)w*8);} }
    gen_src(w,1,&t->a,&t->aw);
  } else { gen_src(w,1,&t->a,&t->aw); gen_src(w,1,&t->b,&t->bw); 
    if(rn(12)==0&&t->a<SLJIT_IMM){ t->b=t->a; t->bw=0; }
    if(b==SLJIT_XOR&&rn(10)==0){ t->b=SLJIT_IMM; t->bw=-1; }
    if(b==SLJIT_SUB&&rn(12)==0){ t->a=SLJIT_IMM; t->aw=0; } }
}
static void observe(void);
static s32 pick_op2(int flags)
{
  s32 op;
  if(gvar==SLJIT_CARRY&&(gadd==1||gadd==2)&&rn(2)){ op=(gadd==1?SLJIT_ADDC:SLJIT_SUBC)|(g32?SLJIT_32:0); if(rn(2)) op|=SLJIT_SET_CARRY; return op; }
  do op=SLJIT_ADD+(s32)rn(16); while(op==SLJIT_ADDC||op==SLJIT_SUBC);
  if(flags&&rn(2)) op=rn(3)?(rn(2)?SLJIT_SUB:SLJIT_ADD):SLJIT_MUL;
  if(rn(2)) op|=SLJIT_32;
  if(flags){ int v=pick_vflag(op&0xff); if((op&0xff)!=SLJIT_MUL&&(op&0xff)!=SLJIT_ROTL&&(op&0xff)!=SLJIT_ROTR&&rn(2)) op|=SLJIT_SET_Z; if(v>=0&&rn(3)) op|=SLJIT_SET(v); }
  return op;
}
static int g_setflags_ok;
static void g_op2(void)
{
  s32 op=pick_op2(pc(P.flagp)); ins t,*i; int w=opw(op); s32 b=op&0xff; int carry=(b==SLJIT_ADDC||b==SLJIT_SUBC);
  int keep_z=gz,keep_v=gvar,keep_32=g32,keep_add=gadd;
  begin(); memset(&t,0,sizeof t);
  gen_2src(op,&t); gen_dst(w,&t.d,&t.dw);
  if(rn(6)==0&&t.a<SLJIT_IMM&&!PLK(t.a)){ t.d=t.a; t.dw=0; } else if(rn(8)==0&&t.b<SLJIT_IMM&&!PLK(t.b)){ t.d=t.b; t.dw=0; } else if(rn(10)==0&&(t.a&SLJIT_MEM)){ t.d=t.a; t.dw=t.aw; } else if(rn(12)==0&&(t.b&SLJIT_MEM)){ t.d=t.b; t.dw=t.bw; }
  if(carry&&!(gvar==SLJIT_CARRY)){ /* operand setup destroyed the flags */ (void)keep_z;(void)keep_v;(void)keep_32;(void)keep_add; op=(op&SLJIT_32)|SLJIT_ADD; }
  i=add(K_OP2,op); i->d=t.d; i->dw=t.dw; i->a=t.a; i->aw=t.aw; i->b=t.b; i->bw=t.bw;
  setflags_after(op);
  if(t.d<SLJIT_IMM){ fin_dst(t.d,w==4?T_I:T_W); maybe_log(t.d); }
  if((gz||gvar>=0)&&rn(2)) observe();
}
static void g_op2u(void)
{
  s32 op; ins t,*i; int tries=0; do { op=pick_op2(1); } while((!(op&(SLJIT_SET_Z|(0x3f<<10)))||(op&0xff)==SLJIT_ROTL||(op&0xff)==SLJIT_ROTR)&&tries++<20); if(!(op&(SLJIT_SET_Z|(0x3f<<10)))) return;
  begin(); memset(&t,0,sizeof t); gen_2src(op,&t);
  if(((op&0xff)==SLJIT_ADDC||(op&0xff)==SLJIT_SUBC)&&gvar!=SLJIT_CARRY) op=(op&SLJIT_32)|SLJIT_SUB|SLJIT_SET_Z;
  i=add(K_OP2U,op); i->a=t.a; i->aw=t.aw; i->b=t.b; i->bw=t.bw; setflags_after(op); gcmpu=(op&0xff)==SLJIT_SUB; if(rn(4)) observe();
}
static void g_op2r(void)
{
  s32 op=SLJIT_MULADD|(rn(2)?SLJIT_32:0); int w=opw(op); ins t,*i; int r; begin(); memset(&t,0,sizeof t);
  r=need_reg(w==4?T_I:T_W); if(!r||PLK(r)) return; lockreg(r); gen_src(w,1,&t.a,&t.aw); gen_src(w,1,&t.b,&t.bw);
  if(rn(5)==0){ t.a=r; t.aw=0; } 
  i=add(K_OP2R,op); i->d=r; i->a=t.a; i->aw=t.aw; i->b=t.b; i->bw=t.bw; settype(r,w==4?T_I:T_W); noflags(); maybe_log(r);
}
static void g_shinto(void)
{
  static const s32 ops[]={SLJIT_SHL,SLJIT_MSHL,SLJIT_LSHR,SLJIT_MLSHR}; s32 op=ops[rn(4)]|(rn(2)?SLJIT_32:0); int w=opw(op),nz=0,d,r1,r2; ins t,*i; begin(); memset(&t,0,sizeof t);
  int ty=w==4?T_I:T_W, m=(op&0xff)==SLJIT_MSHL||(op&0xff)==SLJIT_MLSHR;
  r1=need_reg(ty); if(!r1) return; lockreg(r1); r2=rn(5)?need_reg(ty):r1; if(!r2) return; lockreg(r2);
  if(!typeok(r1,ty)||!typeok(r2,ty)) return;
  if(pc(40)){ t.c=SLJIT_IMM; t.cw=m&&rn(3)==0?(w==4?rimm32():rimmw()):(sw)rn((u32)w*8); if((u64)t.cw%(u64)(w*8)) nz=rn(2); }
  else { int z=rn(2); if(m&&!z&&rn(2)) gen_src(w,0,&t.c,&t.cw); else { int r=ranged_reg(w,z,w*8); if(!r) return; t.c=r; lockreg(r); nz=z; } }
  if(!typeok(r1,ty)||!typeok(r2,ty)) return;
  d=0; { int k; for(k=0;k<10;k++){ d=pick_dst(); if(d&&d!=r2) break; d=0; } } if(rn(4)==0&&r1!=r2&&!PLK(r1)) d=r1; if(!d) return;
  i=add(K_SHINTO,op|(nz?SLJIT_SHIFT_INTO_NON_ZERO:0)); i->d=d; i->a=r1; i->b=r2; i->c=t.c; i->cw=t.cw; settype(d,ty); noflags(); maybe_log(d);
}
static void g_op0(void)
{
  static const s32 ops[]={SLJIT_NOP,SLJIT_LMUL_UW,SLJIT_LMUL_SW,SLJIT_DIVMOD_UW,SLJIT_DIVMOD_U32,SLJIT_DIVMOD_SW,SLJIT_DIVMOD_S32,SLJIT_DIV_UW,SLJIT_DIV_U32,SLJIT_DIV_SW,SLJIT_DIV_S32,SLJIT_MEMORY_BARRIER,SLJIT_ENDBR};
  s32 op=ops[rn(sizeof ops/sizeof*ops)],b=op&0xff; int w=opw(op),ty=w==4?T_I:T_W; ins*i; begin();
  if(b==SLJIT_MEMORY_BARRIER&&!sljit_has_cpu_feature(SLJIT_HAS_MEMORY_BARRIER)) return;
  if(b>=SLJIT_LMUL_UW&&b<=SLJIT_DIV_SW){
    if(c_scr<2||PLK(SLJIT_R0)||PLK(SLJIT_R1)) return;
    if(!typeok(SLJIT_R0,ty)){ if(w==4) e_movimm32(SLJIT_R0,rimm32()); else e_movimm(SLJIT_R0,rimmw()); }
    if(b>=SLJIT_DIVMOD_UW){ int sg=(b==SLJIT_DIVMOD_SW||b==SLJIT_DIV_SW); 
      if(rn(2)||!typeok(SLJIT_R1,ty)){ sw v=w==4?rimm32():rimmw(); if((w==4?(s32)v==0:v==0)) v=3; if(sg&&(w==4?(s32)v==-1:v==-1)) v=-2; if(w==4) e_movimm32(SLJIT_R1,v); else e_movimm(SLJIT_R1,v); }
      else { s32 f=w==4?SLJIT_32:0; if(sg){ i=add(K_OP2,SLJIT_LSHR|f); i->d=SLJIT_R1; i->a=SLJIT_R1; i->b=SLJIT_IMM; i->bw=1+(sw)rn((u32)w*8-2); } i=add(K_OP2,SLJIT_OR|f); i->d=SLJIT_R1; i->a=SLJIT_R1; i->b=SLJIT_IMM; i->bw=1; settype(SLJIT_R1,ty); noflags(); } }
    else if(!typeok(SLJIT_R1,T_W)) e_movimm(SLJIT_R1,rimmw());
    add(K_OP0,op); settype(SLJIT_R0,ty); if(b<SLJIT_DIV_UW) settype(SLJIT_R1,ty); noflags();
    if(pc(P.logp)) logreg(SLJIT_R0); if(pc(P.logp)) logreg(SLJIT_R1);
  } else add(K_OP0,op);
}
static int pick_cond(void)
{ /* condition type available from the current flags, or -1 */
  if(gz&&(gvar<0||rn(2))) return SLJIT_EQUAL+(int)rn(2);
  if(gvar<0) return -1;
  return gvar+(int)rn(2);
}
static int cond_ok(int c){ return (c<2&&gz)||(c>=2&&gvar==(c&~1)); }
static void g_opflags(void)
{
  int c=pick_cond(); s32 op; ins*i; s32 d; sw dw; int w; if(c<0) return; begin();
  if(rn(2)){ op=rn(2)?SLJIT_MOV:SLJIT_MOV32; w=op==SLJIT_MOV32?4:WS; gen_dst(w,&d,&dw); }
  else { static const s32 o[]={SLJIT_AND,SLJIT_OR,SLJIT_XOR}; op=o[rn(3)]; if(rn(2)) op|=SLJIT_32; if(rn(2)) op|=SLJIT_SET_Z; w=opw(op);
    if(rn(3)==0) gen_mem(w,&d,&dw); else { d=pick_reg(w==4?T_I:T_W,1,0,0); dw=0; if(!d) gen_mem(w,&d,&dw); } }
  if(!cond_ok(c)) return; /* destroyed by local base setup */
  i=add(K_OPFLAGS,op); i->d=d; i->dw=dw; i->x=c;
  if((op&0xff)>=SLJIT_ADD){ setflags_after(op); }
  if(d<SLJIT_IMM){ settype(d,w==4?T_I:T_W); maybe_log(d); }
}
static void g_select(void)
{
  int c=pick_cond(),w=rn(2)?4:WS; s32 a; sw aw; int r2,d; ins*i; if(c<0) return; begin();
  r2=need_reg(w==4?T_I:T_W); if(!r2) return; lockreg(r2); gen_src(w,1,&a,&aw); d=pick_dst(); if(!d) return;
  if(rn(4)==0&&!PLK(r2)) d=r2; else if(rn(4)==0&&a<SLJIT_IMM&&!PLK(a)) d=a;
  if(!typeok(r2,w==4?T_I:T_W)) return;
  if(!cond_ok(c)) return;
  i=add(K_SELECT,c|(w==4?SLJIT_32:0)); i->d=d; i->a=a; i->aw=aw; i->b=r2; settype(d,w==4?T_I:T_W);
  if(gvar==SLJIT_CARRY&&c>=2) noflags();
  maybe_log(d);
}
/* ---------- float ---------- */
static int need_freg(int t){ int r=pick_freg(t,0,0); ins*i; if(r&&rn(30)) return r; { int q=pick_freg(0,1,1); if(!q) return r; r=q; } i=add(K_FSET,t==F_32?SLJIT_32:0); i->d=r; i->bits=t==F_32?rf32():rf64(); 
  if(t==F_32){ if((i->bits&0x7fffffff)>0x7f800000) i->bits=0x3f800000; } else if((i->bits&0x7fffffffffffffffULL)>0x7ff0000000000000ULL) i->bits=0x3ff0000000000000ULL;
  setf(r,t,0); noflags(); return r; }
/* float source; *x=1 when its NaN bits are unknown */
static void gen_fsrc(int t,s32*a,sw*aw,int*x)
{
  int r; *x=0;
  if(pc(P.memp)){ int exact=rn(3)==0; gen_fmem(t==F_32?4:8,exact,a,aw); *x=!exact; return; }
  r=need_freg(t); if(!r){ gen_fmem(t==F_32?4:8,0,a,aw); *x=1; return; }
  *a=r; *aw=0; flock|=(u64)1<<r; *x=S.fx[r];
}
static void gen_fdst(int t,int x,s32*a,sw*aw){ int r; if(pc(P.memp)||!(r=pick_freg(0,1,0))){ gen_fmem(t==F_32?4:8,x?0:rn(2),a,aw); return; } *a=r; *aw=0; }
static void flog(int r){ ins*i; if(!pc(P.logp)||inloop||logp_+8>SZ_LOG) return; i=add(K_FOP1,SLJIT_MOV_F64|(S.ft[r]==F_32?SLJIT_32:0)); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+OFF_LOG+(uw)logp_); i->a=r; logp_+=8; }
static void ffin(s32 d,int t,int x){ if(d<SLJIT_IMM){ setf(d,t,x); flog(d);} }
static void g_fop1(void)
{
  static const s32 ops[]={SLJIT_MOV_F64,SLJIT_MOV_F64,SLJIT_CONV_F64_FROM_F32,SLJIT_CONV_SW_FROM_F64,SLJIT_CONV_S32_FROM_F64,SLJIT_CONV_F64_FROM_SW,SLJIT_CONV_F64_FROM_S32,SLJIT_CONV_F64_FROM_UW,SLJIT_CONV_F64_FROM_U32,SLJIT_NEG_F64,SLJIT_ABS_F64};
  s32 op=ops[rn(sizeof ops/sizeof*ops)],b=op; int s=rn(2),x=0; ins t,*i; if(!has_fpu) return; begin(); memset(&t,0,sizeof t); if(s) op|=SLJIT_32;
  if(b==SLJIT_CONV_SW_FROM_F64||b==SLJIT_CONV_S32_FROM_F64){ int w=b==SLJIT_CONV_S32_FROM_F64?4:WS; gen_fsrc(s?F_32:F_64,&t.a,&t.aw,&x); fconv=1; gen_dst(w,&t.d,&t.dw); fconv=0; i=add(K_FOP1,op); i->d=t.d;i->dw=t.dw;i->a=t.a;i->aw=t.aw; noflags(); if(t.d<SLJIT_IMM){ settype(t.d,w==4?T_I:T_W); maybe_log(t.d);} return; }
  if(b>=SLJIT_CONV_F64_FROM_SW&&b<=SLJIT_CONV_F64_FROM_U32){ int w=(b==SLJIT_CONV_F64_FROM_S32||b==SLJIT_CONV_F64_FROM_U32)?4:WS; fconv=1; gen_src(w,1,&t.a,&t.aw); fconv=0; if(rn(3)==0) { int q=rn(2)?pick_reg(0,1,1,0):0; sw v=roundval(w); if(q){ if(w==4&&!is32arch()) e_movimm32(q,v); else e_movimm(q,v); t.a=q; t.aw=0; } else if(t.a==SLJIT_IMM) t.aw=v; } gen_fdst(s?F_32:F_64,0,&t.d,&t.dw); i=add(K_FOP1,op); i->d=t.d;i->dw=t.dw;i->a=t.a;i->aw=t.aw; noflags(); ffin(t.d,s?F_32:F_64,0); return; }
  if(b==SLJIT_CONV_F64_FROM_F32){ /* op|32: F32 from F64 */ gen_fsrc(s?F_64:F_32,&t.a,&t.aw,&x); gen_fdst(s?F_32:F_64,1,&t.d,&t.dw); x=1; }
  else { gen_fsrc(s?F_32:F_64,&t.a,&t.aw,&x); if(b==SLJIT_NEG_F64||b==SLJIT_ABS_F64) x=1; gen_fdst(s?F_32:F_64,x,&t.d,&t.dw); }
  i=add(K_FOP1,op); i->d=t.d;i->dw=t.dw;i->a=t.a;i->aw=t.aw; if(b!=SLJIT_MOV_F64) noflags(); if(b==SLJIT_NEG_F64||b==SLJIT_ABS_F64) x=1;
  ffin(t.d,b==SLJIT_CONV_F64_FROM_F32?(s?F_32:F_64):(s?F_32:F_64),x);
}
static void g_fop2(void)
{ s32 op=SLJIT_ADD_F64+(s32)rn(4); int s=rn(2),x; ins t,*i; if(!has_fpu) return; if(s) op|=SLJIT_32; begin(); memset(&t,0,sizeof t); gen_fsrc(s?F_32:F_64,&t.a,&t.aw,&x); gen_fsrc(s?F_32:F_64,&t.b,&t.bw,&x); gen_fdst(s?F_32:F_64,1,&t.d,&t.dw);
  if(rn(5)==0&&t.a<SLJIT_IMM){ t.d=t.a; t.dw=0; } else if(rn(5)==0&&t.b<SLJIT_IMM){ t.d=t.b; t.dw=0; }
  i=add(K_FOP2,op); i->d=t.d;i->dw=t.dw;i->a=t.a;i->aw=t.aw;i->b=t.b;i->bw=t.bw; noflags(); ffin(t.d,s?F_32:F_64,1); }
static void g_fop2r(void)
{ s32 op=SLJIT_COPYSIGN_F64; int s=rn(2),x,x2,d; ins t,*i; if(!has_fpu) return; if(s) op|=SLJIT_32; begin(); memset(&t,0,sizeof t); gen_fsrc(s?F_32:F_64,&t.a,&t.aw,&x); gen_fsrc(s?F_32:F_64,&t.b,&t.bw,&x2);
  if(x2){ /* sign of an unknown NaN */ if(t.b<SLJIT_IMM){ i=add(K_FSET,s?SLJIT_32:0); i->d=t.b; i->bits=s?0xc0000000u:0xc000000000000000ULL; setf(t.b,s?F_32:F_64,0); if(t.a==t.b) x=0; noflags(); } else { int l; sw tg=pick_target(s?4:8,s?4:8,3,&l); mem_operand_for(tg,l,&t.b,&t.bw); } }
  d=pick_freg(0,1,0); if(!d) return; if(rn(4)==0&&t.a<SLJIT_IMM) d=t.a; else if(rn(4)==0&&t.b<SLJIT_IMM) d=t.b;
  i=add(K_FOP2R,op); i->d=d;i->a=t.a;i->aw=t.aw;i->b=t.b;i->bw=t.bw; noflags(); ffin(d,s?F_32:F_64,x); }
static void g_fset(void){ int s=rn(2),d; ins*i; if(!has_fpu) return; begin(); d=pick_freg(0,1,0); if(!d) return; i=add(K_FSET,s?SLJIT_32:0); i->d=d; i->bits=s?rf32():rf64();
  if(s){ if((i->bits&0x7fffffff)>0x7f800000) i->bits|=0x00400000; } else if((i->bits&0x7fffffffffffffffULL)>0x7ff0000000000000ULL) i->bits|=0x0008000000000000ULL;
  noflags(); ffin(d,s?F_32:F_64,0); }
static void g_fcopy(void)
{
  int k=rn(4),f; ins*i; int r,q; if(!has_fpu) return; begin();
  if(k==0){ r=need_reg(T_I); f=pick_freg(0,1,0); if(!r||!f) return; i=add(K_FCOPY,SLJIT_COPY32_TO_F32); i->d=f; i->a=r; noflags(); ffin(f,F_32,0); }
  else if(k==1){ f=pick_freg(F_32,0,0); if(!f||S.fx[f]){ f=pick_freg(0,1,0); if(!f) return; i=add(K_FSET,SLJIT_32); i->d=f; i->bits=rf32(); if((i->bits&0x7fffffff)>0x7f800000) i->bits=0x3f800000; setf(f,F_32,0); noflags(); } r=pick_dst(); if(!r) return; i=add(K_FCOPY,SLJIT_COPY32_FROM_F32); i->d=f; i->a=r; noflags(); settype(r,T_I); maybe_log(r); }
  else if(k==2){ r=need_reg(T_W); if(!r) return; lockreg(r);
    if(is32arch()){ if(rn(2)){ q=need_reg(T_W); f=pick_freg(0,1,0); if(!q||!f||!typeok(r,T_W)) return; i=add(K_FCOPY,SLJIT_COPY_TO_F64); i->d=f; i->a=SLJIT_REG_PAIR(r,q); noflags(); ffin(f,F_64,0); }
      else { f=pick_freg(F_64,1,0); if(!f||S.fx[f]) return; i=add(K_FCOPY,SLJIT_COPY_TO_F64); i->d=f; i->a=r; noflags(); ffin(f,F_64,0); } }
    else { f=pick_freg(0,1,0); if(!f) return; i=add(K_FCOPY,SLJIT_COPY_TO_F64); i->d=f; i->a=r; noflags(); ffin(f,F_64,0); } }
  else { f=pick_freg(F_64,0,0); if(!f||S.fx[f]){ f=pick_freg(0,1,0); if(!f) return; i=add(K_FSET,0); i->d=f; i->bits=rf64(); if((i->bits&0x7fffffffffffffffULL)>0x7ff0000000000000ULL) i->bits=0; setf(f,F_64,0); noflags(); }
    r=pick_dst(); if(!r) return;
    if(is32arch()&&rn(2)){ lockreg(r); q=pick_reg(0,1,1,0); if(!q) return; i=add(K_FCOPY,SLJIT_COPY_FROM_F64); i->d=f; i->a=SLJIT_REG_PAIR(r,q); noflags(); settype(r,T_W); settype(q,T_W); maybe_log(r); maybe_log(q); }
    else { i=add(K_FCOPY,SLJIT_COPY_FROM_F64); i->d=f; i->a=r; noflags(); settype(r,T_W); maybe_log(r); } }
}
static int pick_ftype(void){ return rn(3)? SLJIT_ORDERED_EQUAL+(int)rn(12) : SLJIT_F_EQUAL+(int)rn(8); }
static void g_fcmpflags(void)
{ int ty=pick_ftype()&~1,s=rn(2),x; ins t,*i; if(!has_fpu) return; begin(); memset(&t,0,sizeof t); gen_fsrc(s?F_32:F_64,&t.a,&t.aw,&x); gen_fsrc(s?F_32:F_64,&t.b,&t.bw,&x); if(rn(8)==0){ t.b=t.a; t.bw=t.aw; }
  i=add(K_FOP1,SLJIT_CMP_F64|(s?SLJIT_32:0)|SLJIT_SET(ty)); i->d=t.a;i->dw=t.aw;i->a=t.b;i->aw=t.bw; noflags(); gvar=ty; g32=s; gord=1; observe(); }
static void g_fselect(void)
{ int c=pick_cond(),s=rn(2),x,r2,d,t=s?F_32:F_64; s32 a; sw aw; ins*i; if(c<0||!has_fpu) return; begin(); r2=pick_freg(t,0,0); if(!r2) return; flock|=(u64)1<<r2;
  if(pc(P.memp)){ int e=rn(2); gen_fmem(s?4:8,e,&a,&aw); x=!e; } else { a=pick_freg(t,0,0); aw=0; x=S.fx[a]; }
  d=pick_freg(0,1,0); if(!d) return; if(rn(4)==0) d=r2; else if(rn(4)==0&&a<SLJIT_IMM) d=a;
  if(!cond_ok(c)) return;
  i=add(K_FSELECT,c|(s?SLJIT_32:0)); i->d=d; i->a=a; i->aw=aw; i->b=r2; x|=S.fx[r2]; if(gvar==SLJIT_CARRY&&c>=2) noflags(); ffin(d,t,x); }
/* ---------- emit_mem family ---------- */
static int mszop(s32 op){ switch(op&0xff){ case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: return 4; default: return WS; } }
static int mtype(s32 op){ return ((op&SLJIT_32)||(op&0xff)==SLJIT_MOV32)?T_I:T_W; }
static const s32 memops[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32,SLJIT_MOV32,SLJIT_MOV_P,SLJIT_MOV32_U8,SLJIT_MOV32_S8,SLJIT_MOV32_U16,SLJIT_MOV32_S16};
static void g_mem(void)
{
  s32 op=memops[rn(13)],m; sw mw; int st=rn(2),sz=mszop(op),al,loc,r,q=0,pair=0; s32 fl; sw tg; ins*i; begin();
  if(rn(3)==0){ op=SLJIT_MOV; pair=1; sz=WS; }
  fl=SLJIT_MEM_UNALIGNED; al=1;
  if(pair&&rn(2)){ fl=0; al=WS; }
  else if(rn(2)){ if(sz==8&&rn(2)){ fl=SLJIT_MEM_ALIGNED_32; al=4; } else if(sz==4&&WS==4&&((op&0xff)==SLJIT_MOV||(op&0xff)==SLJIT_MOV_P)&&rn(2)){ fl=SLJIT_MEM_ALIGNED_32; al=4; } else if(sz>=4){ fl=SLJIT_MEM_ALIGNED_16; al=2; } }
  tg=pick_target(pair?2*sz:sz,al,0,&loc);
  if(st){ r=need_reg(mtype(op)); if(!r) return; lockreg(r); if(pair){ int k; for(k=0;k<10;k++){ q=need_reg(T_W); if(q&&q!=r) break; q=0; } if(!q||!typeok(r,T_W)) return; lockreg(q);} }
  else { r=pick_dst(); if(!r) return; if(pair){ int k; for(k=0;k<10;k++){ q=pick_dst(); if(q&&q!=r) break; q=0; } if(!q) return; } }
  mem_operand_for(tg,loc,&m,&mw);
  if(st){ if(!typeok(r,mtype(op))) return; if(pair&&!typeok(q,T_W)) return; }
  else if(rn(4)==0&&(m&0x7f)&&(m&0x7f)!=SLJIT_SP&&!PLK(m&0x7f)){ if(pair&&rn(2)&&(m&0x7f)!=r) q=m&0x7f; else if((m&0x7f)!=q) r=m&0x7f; }
  else if(rn(4)==0&&(m>>8)&&!PLK(m>>8)){ if(pair&&rn(2)&&(m>>8)!=r) q=m>>8; else if((m>>8)!=q) r=m>>8; }
  i=add(K_MEM,op|fl|(st?SLJIT_MEM_STORE:0)); i->a=pair?SLJIT_REG_PAIR(r,q):r; i->d=m; i->dw=mw;
  if(!st){ settype(r,mtype(op)); if(pair) settype(q,T_W); maybe_log(r); if(pair) maybe_log(q); }
}
static void g_memu(void)
{
  s32 op=memops[rn(13)],m; sw mw; int st=rn(2),post=rn(2),sz=mszop(op),loc,r,base,idx=0; sw tg,off; ins*i; s32 full; begin(); (void)loc;
  base=pick_reg(0,1,1,1); if(!base) return; lockreg(base);
  full=op|(st?SLJIT_MEM_STORE:0)|(post?SLJIT_MEM_POST:0);
  if(st){ r=need_reg(mtype(op)); } else { int k; r=0; for(k=0;k<8;k++){ r=pick_dst(); if(r&&r!=base) break; r=0; } }
  if(!r||r==base) return; lockreg(r);
  tg=pick_target(sz,UNAL&&rn(3)==0?1:sz,3,&loc); { int k=0; while(loc&&k++<50) tg=pick_target(sz,sz,3,&loc); if(loc) return; }
  if(rn(3)){ m=SLJIT_MEM1(base); switch(rn(3)){ case 0: off=(sw)rn(512)-256; break; case 1: off=offimm(); break; default: off=(sw)((int)rn(33)-16)*sz; } mw=off; }
  else { idx=pick_reg(0,1,1,1); if(!idx) return; m=SLJIT_MEM2(base,idx); mw=rn(4); if(rn(2)) mw=0; off=0; }
  if(sljit_emit_mem_update(probe,full|SLJIT_MEM_SUPP,r,m,mw)!=SLJIT_SUCCESS){ if(!idx){ off=(sw)rn(256)-128; off&=~7; mw=off; if(sljit_emit_mem_update(probe,full|SLJIT_MEM_SUPP,r,m,mw)!=SLJIT_SUCCESS) return; } else return; }
  if(idx){ sw iv=(sw)rn(128)-64; e_movimm(idx,iv); off=(sw)((uw)iv<<mw); }
  e_movimm(base,post?tg:(sw)((uw)tg-(uw)off));
  if(st&&!typeok(r,mtype(op))) return;
  i=add(K_MEMU,full); i->a=r; i->d=m; i->dw=mw;
  setconst(base,(sw)((uw)S.rv[base]+(uw)off)); if(!st) settype(r,mtype(op));
  maybe_log(base); if(!st) maybe_log(r);
}
static void g_fmem(void)
{
  int s=rn(2),st=rn(2),sz=s?4:8,al,loc,f,x=0,t=s?F_32:F_64; s32 fl,m; sw mw,tg; ins*i; if(!has_fpu) return; begin();
  fl=SLJIT_MEM_UNALIGNED; al=1; if(rn(2)){ if(!s&&rn(2)){ fl=SLJIT_MEM_ALIGNED_32; al=4; } else { fl=SLJIT_MEM_ALIGNED_16; al=2; } }
  if(st){ f=pick_freg(t,0,0); if(!f) return; x=S.fx[f]; } else { f=pick_freg(0,1,0); if(!f) return; }
  if(x) { tg=pick_target(sz,sz,1,&loc); } else tg=pick_target(sz,al,3,&loc);
  mem_operand_for(tg,loc,&m,&mw);
  i=add(K_FMEM,SLJIT_MOV_F64|(s?SLJIT_32:0)|fl|(st?SLJIT_MEM_STORE:0)); i->a=f; i->d=m; i->dw=mw; if(!st) ffin(f,t,0);
}
static void g_fmemu(void)
{
  int s=rn(2),st=rn(2),post=rn(2),sz=s?4:8,loc,f,base,idx=0,x=0,t=s?F_32:F_64; s32 full,m; sw mw,off,tg; ins*i; if(!has_fpu) return; begin();
  base=pick_reg(0,1,1,1); if(!base) return; lockreg(base);
  if(st){ f=pick_freg(t,0,0); if(!f) return; x=S.fx[f]; } else { f=pick_freg(0,1,0); if(!f) return; }
  full=SLJIT_MOV_F64|(s?SLJIT_32:0)|(st?SLJIT_MEM_STORE:0)|(post?SLJIT_MEM_POST:0);
  if(x){ tg=pick_target(sz,sz,1,&loc); } else { int k=0; do tg=pick_target(sz,sz,3,&loc); while(loc&&k++<50); if(loc) return; }
  if(rn(3)){ m=SLJIT_MEM1(base); off=rn(2)?(sw)((int)rn(33)-16)*sz:offimm(); mw=off; } else { idx=pick_reg(0,1,1,1); if(!idx) return; m=SLJIT_MEM2(base,idx); mw=rn(2)?0:rn(4); off=0; }
  if(sljit_emit_fmem_update(probe,full|SLJIT_MEM_SUPP,f,m,mw)!=SLJIT_SUCCESS){ if(!idx){ off=((sw)rn(256)-128)&~7; mw=off; if(sljit_emit_fmem_update(probe,full|SLJIT_MEM_SUPP,f,m,mw)!=SLJIT_SUCCESS) return; } else return; }
  if(idx){ sw iv=(sw)rn(128)-64; e_movimm(idx,iv); off=(sw)((uw)iv<<mw); }
  e_movimm(base,post?tg:(sw)((uw)tg-(uw)off));
  i=add(K_FMEMU,full); i->a=f; i->d=m; i->dw=mw; setconst(base,(sw)((uw)S.rv[base]+(uw)off)); maybe_log(base); if(!st) ffin(f,t,0);
}
#include "gen2.c"
