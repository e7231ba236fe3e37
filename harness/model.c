/* Reference interpreter of the instruction list. */
#include "eng.h"
/* bit of the sign mask that belongs to the lane stored at index k in memory (the order follows the endianness, see init_simd_sign of the test suite) */
#if (defined SLJIT_BIG_ENDIAN && SLJIT_BIG_ENDIAN)
#define SIGNBIT(k,n) ((n)-1-(k))
#else
#define SIGNBIT(k,n) (k)
#endif
#include <math.h>
mach M; u8 mmem[BUFSZ], mtag[BUFSZ]; crec mlog[256]; int nmlog;
u64 model_fake;
#define RETFAKE ((u64)0x22000000+model_fake)
#define WMASK (WS==8?~(u64)0:(u64)0xffffffffu)
u8 visited[MAXINS]; static int cpc; static u64 pendret;
u64 model_garbage; /* upper half of 32 bit results: unspecified on most targets */
#ifdef UNSPDBG
#define UNSP do{ if(!M.unspec) fprintf(stderr,"UNSP line %d pc %d kind %d op %x\n",__LINE__,cpc,prog[cpc].kind,(unsigned)prog[cpc].op); M.unspec=1; }while(0)
#else
#define UNSP M.unspec=1
#endif
static void bad(const char*m){ fprintf(stderr,"HARNESS: model: %s at pc %d\n",m,cpc); exit(9); }
static u8 *mp(u64 a,int n,u8**tag)
{
  u64 b=(u64)(uw)buf; static u8 dummy[64]; a&=WMASK; if(tag)*tag=dummy;
  if(a>=b&&a+(u64)n<=b+BUFSZ){ if(tag)*tag=mtag+(a-b); return mmem+(a-b); }
  if(a>=LOCFAKE&&a+(u64)n<=LOCFAKE+(u64)c_loc){ if(tag)*tag=M.ltag+(a-LOCFAKE); return M.loc+(a-LOCFAKE); }
  if(a>=LABFAKE&&a<LABFAKE+(u64)MAXLAB*0x1000){ int l=(int)((a-LABFAKE)>>12),k; u64 o=(a-LABFAKE)&0xfff; for(k=0;k<nrob;k++) if(robs[k].lab==l&&o+(u64)n<=(u64)robs[k].size) return robdata+robs[k].off+o; }
  bad("address outside of every region"); return 0;
}
static u64 ea(s32 a,sw aw)
{
  int r=a&0x7f,q=(a>>8)&0x7f; u64 v=0; if(r==SLJIT_SP) v=LOCFAKE; else if(r) v=M.r[r]; if(q) v+=M.r[q]<<(aw&3); else v+=(u64)(i64)aw; return v&WMASK;
}
static u64 ldn(u64 a,int n){ u8*p=mp(a,n,0); switch(n){ case 1: return *p; case 2: { uint16_t v; memcpy(&v,p,2); return v; } case 4: { u32 v; memcpy(&v,p,4); return v; } default: { u64 v; memcpy(&v,p,8); return v; } } }
static void stn(u64 a,int n,u64 v){ u8*t,*p=mp(a,n,&t); memset(t,0,(size_t)n); switch(n){ case 1: *p=(u8)v; break; case 2: { uint16_t x=(uint16_t)v; memcpy(p,&x,2); break; } case 4: { u32 x=(u32)v; memcpy(p,&x,4); break; } default: memcpy(p,&v,8); } }
static u64 sx(u64 v,int bits){ return bits>=64?v:(u64)((i64)(v<<(64-bits))>>(64-bits)); }
static u64 zx(u64 v,int bits){ return bits>=64?v:v&(((u64)1<<bits)-1); }
/* source value zero extended to w bytes */
static u64 trunc_src(s32 a,sw aw,int w){ u64 v; if(a==SLJIT_IMM) v=(u64)(i64)aw; else if(a&SLJIT_MEM) v=ldn(ea(a,aw),w); else v=M.r[a]; return zx(v,w*8); }
/* a 32 bit operation may only read registers set by 32 bit operations */
static void chk32(int r,int w){ if(w==4&&WS==8&&M.rt[r]!=4) UNSP; }
static u64 src(s32 a,sw aw,int w){ if(a!=SLJIT_IMM&&!(a&SLJIT_MEM)) chk32(a,w); return trunc_src(a,aw,w); }
static void setw(int r,u64 v){ M.r[r]=v&WMASK; M.rt[r]=WS; }
static void dst(s32 d,sw dw,int w,u64 v){ v=zx(v,w*8); if(d&SLJIT_MEM) stn(ea(d,dw),w,v); else { M.r[d]=(v|(w<WS?model_garbage:0))&WMASK; M.rt[d]=(u8)w; } }
static u64 ftagval(u64 a,int n,u8*x){ u8*t; u64 v; mp(a,n,&t); v=ldn(a,n); *x=t[0]; return v; }
static u64 fsrc(s32 a,sw aw,int n,u8*x){ *x=0; if(a&SLJIT_MEM) return ftagval(ea(a,aw),n,x); *x=M.fx[a]; if(M.fw[a]!=n) UNSP; return n==4?(u32)M.f[a]:M.f[a]; }
static int isnan32(u64 v){ return (v&0x7fffffff)>0x7f800000; }
static int isnan64(u64 v){ return (v&0x7fffffffffffffffULL)>0x7ff0000000000000ULL; }
static void fstore(u64 a,int n,u64 v,u8 x){ u8*t; stn(a,n,v); mp(a,n,&t); t[0]=(u8)((x&&(n==4?isnan32(v):isnan64(v)))?(n==4?1:2):0); }
static void fdst(s32 d,sw dw,int n,u64 v,u8 x){ if(d&SLJIT_MEM) fstore(ea(d,dw),n,v,x); else { M.f[d]=n==4?(v&0xffffffffu)|(model_garbage&0xffffffff00000000ULL):v; M.fx[d]=(u8)(x?1:0); M.fw[d]=(u8)n; } }
static double D(u64 v){ double d; memcpy(&d,&v,8); return d; }
static float F(u64 v){ u32 u=(u32)v; float d; memcpy(&d,&u,4); return d; }
static u64 UD(double d){ u64 v; memcpy(&v,&d,8); return v; }
/* integer to float with round to nearest even, in integer arithmetic (the emulators round some of these twice) */
static u64 i2f(u64 v,int neg,int single){ int e=63,mb=single?23:52,sh; u64 m,r,h; if(!v) return 0; if(neg) v=0-v; while(!(v>>63)) { v<<=1; e--; } sh=63-mb; m=v>>sh; r=v&(((u64)1<<sh)-1); h=(u64)1<<(sh-1);
  if(r>h||(r==h&&(m&1))) m++; if(m>>(mb+1)) { m>>=1; e++; } m&=((u64)1<<mb)-1; return m|((u64)(e+(single?127:1023))<<mb)|((u64)neg<<(single?31:63)); }
static u64 UF(float d){ u32 v; memcpy(&v,&d,4); return v; }
static u64 brev(u64 v,int n){ u64 r=0; int k; for(k=0;k<n;k++){ r=(r<<8)|(v&0xff); v>>=8; } return r; }

static int cond(int c)
{ int v; if(c<2) v=M.z; else if((c&~1)==SLJIT_UNORDERED) v=M.unord; else v=M.var; if(c<2) return (c&1)?!v:v; return (c&1)?!v:v; }
/* integer comparison type on w byte operands */
static int icmp(int ty,u64 a,u64 b,int w)
{ i64 sa=(i64)sx(a,w*8),sb=(i64)sx(b,w*8); switch(ty){ case 0: return a==b; case 1: return a!=b; case 2: return a<b; case 3: return a>=b; case 4: return a>b; case 5: return a<=b; case 6: return sa<sb; case 7: return sa>=sb; case 8: return sa>sb; case 9: return sa<=sb; } bad("icmp"); return 0; }
static int fcmpty(int ty,u64 a,u64 b,int n)
{
  double x=n==4?(double)F(a):D(a),y=n==4?(double)F(b):D(b); int un= n==4?(isnan32(a)||isnan32(b)):(isnan64(a)||isnan64(b)); int v=0;
  int eq=!un&&x==y,lt=!un&&x<y,gt=!un&&x>y; M.unord=un;
  switch(ty&~1){
  case SLJIT_F_EQUAL: v=eq; if(un) UNSP; break; case SLJIT_F_LESS: v=lt; if(un) UNSP; break; case SLJIT_F_GREATER: v=gt; if(un) UNSP; break;
  case SLJIT_UNORDERED: v=un; break; case SLJIT_ORDERED_EQUAL: v=eq; break; case SLJIT_ORDERED_LESS: v=lt; break; case SLJIT_ORDERED_GREATER: v=gt; break;
  case SLJIT_UNORDERED_OR_EQUAL: v=eq||un; break; case SLJIT_UNORDERED_OR_LESS: v=lt||un; break; case SLJIT_UNORDERED_OR_GREATER: v=gt||un; break; default: bad("fcmp type"); }
  return (ty&1)?!v:v;
}
static u64 conv_int(double d,int w,int isnan_)
{
  u64 maxv=w==8?0x7fffffffffffffffULL:0x7fffffff, minv=w==8?0x8000000000000000ULL:0x80000000u; int k; double hi=w==8?9223372036854775808.0:2147483648.0;
  if(isnan_) k=SLJIT_CONV_NAN_FLOAT; else if(w==8?d>=hi:d>=hi) k=SLJIT_CONV_MAX_FLOAT; else if(w==8?d<-hi:d<=-2147483649.0) k=SLJIT_CONV_MIN_FLOAT; else return zx((u64)(i64)d,w*8);
  return k==SLJIT_CONV_RESULT_MAX_INT?maxv:k==SLJIT_CONV_RESULT_MIN_INT?minv:0;
}
/* arithmetic; sets flags */
static u64 alu(s32 op,u64 a,u64 b)
{
  int w=(op&SLJIT_32)?4:WS,bits=w*8; u64 m=zx(~(u64)0,bits),r=0; int fl=(op>>10)&0x3f,ov=0,cy=0,cin=M.var; i64 sa=(i64)sx(a,bits),sb=(i64)sx(b,bits); u64 s;
  switch(op&0xff){
  case SLJIT_ADD: r=(a+b)&m; cy=r<a; ov=(int)((~(a^b)&(a^r))>>(bits-1)&1); break;
  case SLJIT_ADDC: r=(a+b+(u64)(cin!=0))&m; { u64 t=(a+b)&m; cy=(t<a)||(cin&&r==0); } break;
  case SLJIT_SUB: r=(a-b)&m; cy=a<b; ov=(int)(((a^b)&(a^r))>>(bits-1)&1); break;
  case SLJIT_SUBC: r=(a-b-(u64)(cin!=0))&m; cy=(a<b)||(cin&&a==b); break;
  case SLJIT_MUL: r=(a*b)&m; 
    if(bits==32){ i64 p=sa*sb; ov=p!=(i64)(s32)p; }
#if WS==8
    else { __int128 p=(__int128)sa*sb; ov=p!=(__int128)(i64)p; }
#endif
    break;
  case SLJIT_AND: r=a&b; break; case SLJIT_OR: r=a|b; break; case SLJIT_XOR: r=a^b; break;
  case SLJIT_SHL: case SLJIT_MSHL: s=b&(u64)(bits-1); r=(a<<s)&m; break;
  case SLJIT_LSHR: case SLJIT_MLSHR: s=b&(u64)(bits-1); r=a>>s; break;
  case SLJIT_ASHR: case SLJIT_MASHR: s=b&(u64)(bits-1); r=(u64)(sa>>s)&m; break;
  case SLJIT_ROTL: s=b&(u64)(bits-1); r=s?((a<<s)|(a>>((u64)bits-s)))&m:a; break;
  case SLJIT_ROTR: s=b&(u64)(bits-1); r=s?((a>>s)|(a<<((u64)bits-s)))&m:a; break;
  default: bad("alu");
  }
  if(op&SLJIT_SET_Z) M.z=r==0;
  switch(fl){ case 0: break; case SLJIT_LESS: M.var=a<b; break; case SLJIT_GREATER: M.var=a>b; break; case SLJIT_SIG_LESS: M.var=sa<sb; break; case SLJIT_SIG_GREATER: M.var=sa>sb; break; case SLJIT_OVERFLOW: M.var=ov; break; case SLJIT_CARRY: M.var=cy; break; default: bad("flag"); }
  return r;
}
static int szop(s32 op){ switch(op&0xff){ case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: return 4; default: return (op&SLJIT_32)?4:WS; } }
static int sgop(s32 op){ switch(op&0xff){ case SLJIT_MOV_S8: case SLJIT_MOV_S16: case SLJIT_MOV_S32: return 1; } return 0; }
static u64 ext(s32 op,u64 v){ int n=szop(op)*8; return (sgop(op)?sx(v,n):zx(v,n))&(((op&SLJIT_32)||(op&0xff)==SLJIT_MOV32)?0xffffffffu:WMASK); }
static u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>33; return h; }
u64 callee_eval(int id,u64*v,crec*out)
{
  s32 t=callees[id].types; int k; u64 h=(u64)id*77+5; memset(out,0,sizeof *out); out->id=id; for(k=0;k<4;k++) out->v[k]=0;
  for(k=0;k<4;k++){ int a=(t>>(4*(k+1)))&7; if(!a) break; out->v[k]=(a==SLJIT_ARG_TYPE_32||a==SLJIT_ARG_TYPE_F32)?zx(v[k],32):(a==SLJIT_ARG_TYPE_F64)?v[k]:(v[k]&WMASK); h=mix(h,out->v[k]); }
  switch(t&7){ case SLJIT_ARG_TYPE_32: return zx(h,32); case SLJIT_ARG_TYPE_F64: return UD((double)(s32)h*0.375); case SLJIT_ARG_TYPE_F32: return UF((float)(int)(h&0xffff)*0.5f-300.0f); default: return h&WMASK; }
}
static int labof(u64 a){ a-=LABFAKE; if((a&0xfff)||(a>>12)>=(u64)nlab) bad("bad code address"); return (int)(a>>12); }
static u64 elem(const u8*p,int e){ switch(e){ case 0: return *p; case 1: { uint16_t v; memcpy(&v,p,2); return v; } case 2: { u32 v; memcpy(&v,p,4); return v; } default: { u64 v; memcpy(&v,p,8); return v; } } }
static void setelem(u8*p,int e,u64 v){ switch(e){ case 0: *p=(u8)v; break; case 1: { uint16_t x=(uint16_t)v; memcpy(p,&x,2); break; } case 2: { u32 x=(u32)v; memcpy(p,&x,4); break; } default: memcpy(p,&v,8); } }

int model_run(void)
{
  int pc=0; long steps=0; u8 x,x2; u64 v,u; nmlog=0; M.unspec=0; M.retx=0; M.ret=0; pendret=0;
  for(;;){
    ins*i=&prog[pc]; int w,n; cpc=pc; visited[pc]=1; if(++steps>2000000) bad("too many steps"); if(pc>=np) bad("end of program"); pc++;
    switch(i->kind){
    case K_OP0: { int sh=(i->op&SLJIT_32)?4:WS; u64 a=zx(M.r[SLJIT_R0],sh*8),b=zx(M.r[SLJIT_R1],sh*8),q,r; if((i->op&0xff)>=SLJIT_LMUL_UW&&(i->op&0xff)<=SLJIT_DIV_SW){ chk32(SLJIT_R0,sh); chk32(SLJIT_R1,sh); } i64 sa=(i64)sx(a,sh*8),sb=(i64)sx(b,sh*8); switch(i->op&0xff){
      case SLJIT_NOP: case SLJIT_MEMORY_BARRIER: case SLJIT_ENDBR: case SLJIT_BREAKPOINT: break;
      case SLJIT_LMUL_UW:
#if WS==8
        { unsigned __int128 p=(unsigned __int128)a*b; setw(SLJIT_R0,(u64)p); setw(SLJIT_R1,(u64)(p>>64)); }
#else
        { u64 p=a*b; setw(SLJIT_R0,(u32)p); setw(SLJIT_R1,p>>32); }
#endif
        break;
      case SLJIT_LMUL_SW:
#if WS==8
        { __int128 p=(__int128)sa*sb; setw(SLJIT_R0,(u64)p); setw(SLJIT_R1,(u64)(p>>64)); }
#else
        { u64 p=(u64)(sa*sb); setw(SLJIT_R0,(u32)p); setw(SLJIT_R1,p>>32); }
#endif
        break;
      case SLJIT_DIVMOD_UW: case SLJIT_DIV_UW: if(!b) bad("div0"); q=a/b; r=a%b; goto divs;
      case SLJIT_DIVMOD_SW: case SLJIT_DIV_SW: if(!b||(sb==-1)) bad("sdiv0"); q=(u64)(sa/sb); r=(u64)(sa%sb);
      divs: dst(SLJIT_R0,0,sh,q); if((i->op&0xff)==SLJIT_DIVMOD_UW||(i->op&0xff)==SLJIT_DIVMOD_SW) dst(SLJIT_R1,0,sh,r); break;
      default: bad("op0"); } break; }
    case K_OP1: { s32 b=i->op&0xff; w=((i->op&SLJIT_32)||b==SLJIT_MOV32)?4:WS;
      if(b<SLJIT_CLZ){ n=szop(i->op); v=trunc_src(i->a,i->aw,n); if(n==4&&(i->op&SLJIT_32)&&i->a!=SLJIT_IMM&&!(i->a&SLJIT_MEM)) chk32(i->a,4); if(i->a==SLJIT_IMM) v=zx((u64)(i64)i->aw,n*8); v=ext(i->op,v); if(i->d&SLJIT_MEM) dst(i->d,i->dw,n,v); else dst(i->d,0,w,v); break; }
      switch(b){ case SLJIT_REV_U16: case SLJIT_REV_S16: n=2; break; case SLJIT_REV_U32: case SLJIT_REV_S32: n=4; break; default: n=w; }
      v=(i->op&SLJIT_32)?src(i->a,i->aw,n):trunc_src(i->a,i->aw,n);
      switch(b){ case SLJIT_CLZ: { int k=0; while(k<w*8&&!(v>>(w*8-1-k)&1)) k++; v=(u64)k; break; } case SLJIT_CTZ: { int k=0; while(k<w*8&&!(v>>k&1)) k++; v=(u64)k; break; }
        case SLJIT_REV: v=brev(v,w); break; case SLJIT_REV_U16: case SLJIT_REV_U32: v=brev(v,n); break; case SLJIT_REV_S16: case SLJIT_REV_S32: v=sx(brev(v,n),n*8); break; default: bad("op1"); }
      if(i->d&SLJIT_MEM) dst(i->d,i->dw,n,v); else dst(i->d,0,w,v); break; }
    case K_OP2: w=(i->op&SLJIT_32)?4:WS; v=src(i->a,i->aw,w); u=src(i->b,i->bw,w); v=alu(i->op,v,u); dst(i->d,i->dw,w,v); break;
    case K_OP2U: w=(i->op&SLJIT_32)?4:WS; v=src(i->a,i->aw,w); u=src(i->b,i->bw,w); alu(i->op,v,u); break;
    case K_OP2CMPZ: { s32 o=i->op&~(s32)(SLJIT_SET_Z|SLJIT_REWRITABLE_JUMP); w=(o&SLJIT_32)?4:WS; v=src(i->a,i->aw,w); u=src(i->b,i->bw,w); v=alu(o,v,u); dst(i->d,i->dw,w,v); if((i->op&SLJIT_SET_Z)?v==0:v!=0) pc=label_pc[swtarget[pc-1]]; break; }
    case K_OP2R: w=(i->op&SLJIT_32)?4:WS; v=src(i->a,i->aw,w); u=src(i->b,i->bw,w); chk32(i->d,w); dst(i->d,0,w,zx(M.r[i->d],w*8)+v*u); break;
    case K_SHINTO: { int b=i->op&0xff,s,bits; w=(i->op&SLJIT_32)?4:WS; bits=w*8; chk32(i->a,w); chk32(i->b,w); v=zx(M.r[i->a],bits); u=zx(M.r[i->b],bits); s=(int)(src(i->c,i->cw,w)&(u64)(bits-1)); if(b==SLJIT_SHL||b==SLJIT_MSHL) v=(v<<s)|((u>>1)>>((bits-1)^s)); else v=(v>>s)|zx(zx(u<<1,bits)<<((bits-1)^s),bits); dst(i->d,0,w,v); break; }
    case K_OPFLAGS: { int c=cond(i->x),b=i->op&0xff; w=((i->op&SLJIT_32)||b==SLJIT_MOV32)?4:WS; if(b<SLJIT_ADD){ dst(i->d,i->dw,w,(u64)c); break; } v=src(i->d,i->dw,w); switch(b){ case SLJIT_AND: v&=(u64)c; break; case SLJIT_OR: v|=(u64)c; break; default: v^=(u64)c; } dst(i->d,i->dw,w,v); if(i->op&SLJIT_SET_Z) M.z=v==0; break; }
    case K_SELECT: w=(i->op&SLJIT_32)?4:WS; chk32(i->b,w); if(i->a!=SLJIT_IMM&&!(i->a&SLJIT_MEM)) chk32(i->a,w); v=cond(i->op&0xff)?src(i->a,i->aw,w):zx(M.r[i->b],w*8); dst(i->d,0,w,v); break;
    case K_FSELECT: n=(i->op&SLJIT_32)?4:8; v=fsrc(i->a,i->aw,n,&x); if(M.fw[i->b]!=n) UNSP; if(!cond(i->op&0xff)){ v=M.f[i->b]; x=M.fx[i->b]; } fdst(i->d,0,n,v,x); break;
    case K_MEM: { s32 o=i->op&~(s32)0xfe00; u64 a=ea(i->d,i->dw); int r1=i->a&0x7f,r2=i->a>>8; o=i->op&0x1ff; n=szop(o); if(r2){ if(i->op&SLJIT_MEM_STORE){ stn(a,WS,M.r[r1]); stn(a+WS,WS,M.r[r2]); } else { v=ldn(a,WS); u=ldn(a+WS,WS); setw(r1,v); setw(r2,u); } } else if(i->op&SLJIT_MEM_STORE) stn(a,n,M.r[r1]); else { w=((o&SLJIT_32)||(o&0xff)==SLJIT_MOV32)?4:WS; dst(r1,0,w,ext(o,ldn(a,n))); } break; }
    case K_MEMU: { s32 o=i->op&0x1ff; int base=i->d&0x7f; u64 na=ea(i->d,i->dw),a=(i->op&SLJIT_MEM_POST)?M.r[base]:na; n=szop(o); if(i->op&SLJIT_MEM_STORE) stn(a,n,M.r[i->a]); else { v=ldn(a,n); w=((o&SLJIT_32)||(o&0xff)==SLJIT_MOV32)?4:WS; dst(i->a,0,w,ext(o,v)); } setw(base,na); break; }
    case K_FMEM: { u64 a=ea(i->d,i->dw); n=(i->op&SLJIT_32)?4:8; if(i->op&SLJIT_MEM_STORE) { if(M.fw[i->a]!=n) UNSP; fstore(a,n,M.f[i->a],M.fx[i->a]); } else { v=ftagval(a,n,&x); fdst(i->a,0,n,v,x); } break; }
    case K_FMEMU: { int base=i->d&0x7f; u64 na=ea(i->d,i->dw),a=(i->op&SLJIT_MEM_POST)?M.r[base]:na; n=(i->op&SLJIT_32)?4:8; if(i->op&SLJIT_MEM_STORE) { if(M.fw[i->a]!=n) UNSP; fstore(a,n,M.f[i->a],M.fx[i->a]); } else { v=ftagval(a,n,&x); fdst(i->a,0,n,v,x); } setw(base,na); break; }
    case K_FOP1: { s32 b=i->op&0xff; int s=(i->op&SLJIT_32)!=0; n=s?4:8;
      switch(b){
      case SLJIT_MOV_F64: v=fsrc(i->a,i->aw,n,&x); fdst(i->d,i->dw,n,v,x); break;
      case SLJIT_CONV_F64_FROM_F32: if(s){ v=fsrc(i->a,i->aw,8,&x); fdst(i->d,i->dw,4,UF((float)D(v)),1); } else { v=fsrc(i->a,i->aw,4,&x); fdst(i->d,i->dw,8,UD((double)F(v)),1); } break;
      case SLJIT_CONV_SW_FROM_F64: case SLJIT_CONV_S32_FROM_F64: v=fsrc(i->a,i->aw,n,&x); w=b==SLJIT_CONV_SW_FROM_F64?WS:4; dst(i->d,i->dw,w,conv_int(s?(double)F(v):D(v),w,s?isnan32(v):isnan64(v))); break;
      case SLJIT_CONV_F64_FROM_SW: v=src(i->a,i->aw,WS); v=sx(v,WBITS); fdst(i->d,i->dw,n,i2f(v,(i64)v<0,s),0); break;
      case SLJIT_CONV_F64_FROM_S32: v=sx(src(i->a,i->aw,4),32); fdst(i->d,i->dw,n,i2f(v,(i64)v<0,s),0); break;
      case SLJIT_CONV_F64_FROM_UW: v=src(i->a,i->aw,WS); fdst(i->d,i->dw,n,i2f(v,0,s),0); break;
      case SLJIT_CONV_F64_FROM_U32: v=src(i->a,i->aw,4); fdst(i->d,i->dw,n,i2f(v,0,s),0); break;
      case SLJIT_CMP_F64: v=fsrc(i->d,i->dw,n,&x); u=fsrc(i->a,i->aw,n,&x2); M.var=fcmpty((i->op>>10)&0x3f,v,u,n); break;
      case SLJIT_NEG_F64: v=fsrc(i->a,i->aw,n,&x); fdst(i->d,i->dw,n,v^(s?0x80000000u:0x8000000000000000ULL),1); break;
      case SLJIT_ABS_F64: v=fsrc(i->a,i->aw,n,&x); fdst(i->d,i->dw,n,v&(s?0x7fffffffu:0x7fffffffffffffffULL),1); break;
      default: bad("fop1"); } break; }
    case K_FOP2: { int s=(i->op&SLJIT_32)!=0; n=s?4:8; v=fsrc(i->a,i->aw,n,&x); u=fsrc(i->b,i->bw,n,&x2);
      if(s){ volatile float a=F(v),b=F(u),r; switch(i->op&0xff){ case SLJIT_ADD_F64: r=a+b; break; case SLJIT_SUB_F64: r=a-b; break; case SLJIT_MUL_F64: r=a*b; break; default: r=a/b; } v=UF(r); }
      else { volatile double a=D(v),b=D(u),r; switch(i->op&0xff){ case SLJIT_ADD_F64: r=a+b; break; case SLJIT_SUB_F64: r=a-b; break; case SLJIT_MUL_F64: r=a*b; break; default: r=a/b; } v=UD(r); }
      fdst(i->d,i->dw,n,v,1); break; }
    case K_FOP2R: { u64 sg=(i->op&SLJIT_32)?0x80000000u:0x8000000000000000ULL; n=(i->op&SLJIT_32)?4:8; v=fsrc(i->a,i->aw,n,&x); u=fsrc(i->b,i->bw,n,&x2); if(x2&&(n==4?isnan32(u):isnan64(u))) UNSP; fdst(i->d,0,n,(v&~sg)|(u&sg),x); break; }
    case K_FSET: fdst(i->d,0,(i->op&SLJIT_32)?4:8,i->bits,0); break;
    case K_FCOPY: { int r1=i->a&0x7f,r2=i->a>>8; switch(i->op){
      case SLJIT_COPY32_TO_F32: chk32(r1,4); fdst(i->d,0,4,zx(M.r[r1],32),0); break; case SLJIT_COPY32_FROM_F32: if(M.fw[i->d]!=4) UNSP; dst(r1,0,4,M.f[i->d]); break;
      case SLJIT_COPY_TO_F64: if(WS==8) v=M.r[r1]; else if(r2) v=M.r[r1]<<32|M.r[r2]; else v=M.r[r1]<<32|(u32)M.f[i->d]; fdst(i->d,0,8,v,0); break;
      default: v=M.f[i->d]; if(WS==8) setw(r1,v); else { setw(r1,v>>32); if(r2) setw(r2,v); } if(M.fw[i->d]!=8) UNSP; } break; }
    case K_LABEL: case K_SETFLAGS: case K_PAD: case K_SRC: case K_ROBUF: break;
    case K_JUMP: { int c=i->op&0xff; if(c>=SLJIT_JUMP||cond(c)) pc=label_pc[swtarget[pc-1]]; break; }
    case K_CMP: w=(i->op&SLJIT_32)?4:WS; v=src(i->a,i->aw,w); u=src(i->b,i->bw,w); if(icmp(i->op&0xff,v,u,w)) pc=label_pc[swtarget[pc-1]]; break;
    case K_FCMP: n=(i->op&SLJIT_32)?4:8; v=fsrc(i->a,i->aw,n,&x); u=fsrc(i->b,i->bw,n,&x2); if(fcmpty(i->op&0xff,v,u,n)) pc=label_pc[swtarget[pc-1]]; break;
    case K_OPADDR: v=LABFAKE+(u64)i->lab*0x1000; if(i->op==SLJIT_ADD_ABS_ADDR) v=(v+M.r[i->d])&WMASK; dst(i->d,i->dw,WS,v); break;
    case K_IJUMP: v=src(i->a,i->aw,WS); if(i->op==SLJIT_FAST_CALL) pendret=RETFAKE+(u64)pc*16; pc=label_pc[labof(v)]; break;
    case K_FCALL: pendret=RETFAKE+(u64)pc*16; pc=label_pc[swtarget[pc-1]]; break;
    case K_FENTER: dst(i->d,i->dw,WS,pendret); break;
    case K_FRET: v=src(i->a,i->aw,WS)-RETFAKE; if((v&15)||v/16>=(u64)np) bad("bad fast return"); pc=(int)(v/16); break;
    case K_CALL: { u64 a[4]={0,0,0,0},r; int k,ni=0,nf=0; for(k=0;k<4;k++){ int t=(i->c>>(4*(k+1)))&7; if(!t) break; if(t>=SLJIT_ARG_TYPE_F64) { if(M.fw[SLJIT_FR0+nf]!=(t==SLJIT_ARG_TYPE_F32?4:8)) UNSP; a[k]=M.f[SLJIT_FR0+nf++]; } else { if(t==SLJIT_ARG_TYPE_32) chk32(SLJIT_R0+ni,4); a[k]=M.r[SLJIT_R0+ni++]; } } if(nmlog<256){ r=callee_eval(i->x,a,&mlog[nmlog]); nmlog++; } else { crec q; r=callee_eval(i->x,a,&q); }
      for(k=SLJIT_R0;k<SLJIT_R0+c_scr;k++) setw(k,0xdeadbeefdeadbeefULL^model_fake<<8); switch(i->c&7){ case 0: break; case SLJIT_ARG_TYPE_F64: case SLJIT_ARG_TYPE_F32: M.f[SLJIT_FR0]=r; M.fx[SLJIT_FR0]=0; M.fw[SLJIT_FR0]=(i->c&7)==SLJIT_ARG_TYPE_F32?4:8; break; default: dst(SLJIT_R0,0,(i->c&7)==SLJIT_ARG_TYPE_32?4:WS,r); } break; }
    case K_CONST: { s32 b=i->op&0xff; v=(u64)(i64)constv[i->x]; w=(i->op==SLJIT_MOV32||i->op==SLJIT_MOV32_U8)?4:WS; n=b==SLJIT_MOV_U8?1:w; if(b==SLJIT_MOV_S32) v=sx(v,32); if(b==SLJIT_MOV_U8&&!(i->d&SLJIT_MEM)) v=sx(v,9); if(i->d&SLJIT_MEM) stn(ea(i->d,i->dw),n,v); else dst(i->d,0,w,v); break; }
    case K_GETRA: dst(i->d,i->dw,WS,0x1234); break;
    case K_LOCB: v=(LOCFAKE+(u64)(i64)i->aw)&WMASK; dst(i->d,i->dw,WS,v); break;
    case K_RET: M.steps=steps; if(!i->op) return 0;
      if(i->op==SLJIT_MOV_F64){ M.ret=fsrc(i->a,i->aw,8,&x); M.retx=1; return 0; } if(i->op==SLJIT_MOV_F32){ M.ret=fsrc(i->a,i->aw,4,&x); M.retx=1; return 0; }
      n=szop(i->op); v=trunc_src(i->a,i->aw,n); M.ret=ext(i->op,v); if(c_ret==SLJIT_ARG_TYPE_32) M.ret=zx(M.ret,32); return 0;
    case K_SMOV: { int sz=1<<((i->op>>12)&7); if(i->a&SLJIT_MEM){ u8*t,*p=mp(ea(i->a,i->aw),sz,&t); if(i->op&SLJIT_SIMD_STORE){ memcpy(p,M.v[i->d],(size_t)sz); memset(t,0,(size_t)sz); } else memcpy(M.v[i->d],p,(size_t)sz); } else if(i->op&SLJIT_SIMD_STORE) memcpy(M.v[i->a],M.v[i->d],(size_t)sz); else memcpy(M.v[i->d],M.v[i->a],(size_t)sz); break; }
    case K_SREP: { int sz=1<<((i->op>>12)&7),e=(i->op>>18)&7,k; if(i->a==SLJIT_IMM) v=(u64)(i64)i->aw; else if(i->a&SLJIT_MEM) v=ldn(ea(i->a,i->aw),1<<e); else { if((i->op&SLJIT_SIMD_FLOAT)&&M.fw[i->a]!=1<<e) UNSP; v=(i->op&SLJIT_SIMD_FLOAT)?M.f[i->a]:M.r[i->a]; } for(k=0;k<sz;k+=1<<e) setelem(M.v[i->d]+k,e,v); break; }
    case K_SLANE: { int sz=1<<((i->op>>12)&7),e=(i->op>>18)&7; u8*p=M.v[i->d]+(i->x<<e);
      if(i->op&SLJIT_SIMD_STORE){ v=elem(p,e); if(i->a&SLJIT_MEM) stn(ea(i->a,i->aw),1<<e,v); else if(i->op&SLJIT_SIMD_FLOAT){ M.f[i->a]=v; M.fx[i->a]=0; M.fw[i->a]=(u8)(1<<e); } else { if(i->op&SLJIT_SIMD_LANE_SIGNED) v=sx(v,8<<e); dst(i->a,0,(i->op&SLJIT_32)?4:WS,v); } }
      else { if(i->a==SLJIT_IMM) v=(u64)(i64)i->aw; else if(i->a&SLJIT_MEM) v=ldn(ea(i->a,i->aw),1<<e); else { if((i->op&SLJIT_SIMD_FLOAT)&&M.fw[i->a]!=1<<e) UNSP; v=(i->op&SLJIT_SIMD_FLOAT)?M.f[i->a]:M.r[i->a]; } if(i->op&SLJIT_SIMD_LANE_ZERO) memset(M.v[i->d],0,(size_t)sz); setelem(p,e,v); } break; }
    case K_SLREP: { int sz=1<<((i->op>>12)&7),e=(i->op>>18)&7,k; v=elem(M.v[i->a]+(i->x<<e),e); for(k=0;k<sz;k+=1<<e) setelem(M.v[i->d]+k,e,v); break; }
    case K_SEXT: { int sz=1<<((i->op>>12)&7),e=(i->op>>18)&7,e2=(i->op>>24)&7,cnt=sz>>e2,k; u8 t[64]; if(i->a&SLJIT_MEM) memcpy(t,mp(ea(i->a,i->aw),cnt<<e,0),(size_t)(cnt<<e)); else memcpy(t,M.v[i->a],64);
      for(k=0;k<cnt;k++){ v=elem(t+(k<<e),e); if(i->op&SLJIT_SIMD_FLOAT){ if(isnan32(v)) UNSP; v=UD((double)F(v)); } else if(i->op&SLJIT_SIMD_EXTEND_SIGNED) v=sx(v,8<<e); setelem(M.v[i->d]+(k<<e2),e2,v); } break; }
    case K_SSIGN: { int sz=1<<((i->op>>12)&7),e=(i->op>>18)&7,k; v=0; for(k=0;k<sz>>e;k++) v|=(elem(M.v[i->a]+(k<<e),e)>>((8<<e)-1)&1)<<SIGNBIT(k,sz>>e); dst(i->d,i->dw,(i->op&SLJIT_32)?4:WS,v); break; }
    case K_SOP2: { int sz=1<<((i->op>>12)&7),k; u8 a[64],b[64],r[64]; memcpy(a,M.v[i->a],64); if(i->b&SLJIT_MEM) memcpy(b,mp(ea(i->b,i->bw),sz,0),(size_t)sz); else memcpy(b,M.v[i->b],64);
      for(k=0;k<sz;k++) switch(i->op&7){ case SLJIT_SIMD_OP2_AND: r[k]=a[k]&b[k]; break; case SLJIT_SIMD_OP2_OR: r[k]=a[k]|b[k]; break; case SLJIT_SIMD_OP2_XOR: r[k]=a[k]^b[k]; break; default: if(b[k]>=sz) bad("shuffle"); r[k]=a[b[k]]; } memcpy(M.v[i->d],r,(size_t)sz); break; }
    default: bad("unknown instruction");
    }
  }
}
