/* C20: capability queries, test flags, machine register indexes and custom instructions.
   profile=forms: every query is compared with what emission does. profile=regs (needs to run code): hand-encoded instructions see and change the queried registers. */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
typedef sljit_uw uw; typedef sljit_sw sw; typedef uint64_t u64; typedef uint8_t u8; typedef sljit_s32 s32; typedef sljit_u32 u32; typedef sljit_u16 u16;
#ifdef WITH_EMIT
#define BLKMAX (8u<<20)
static u8*blk;
void *v_exec_malloc(size_t n){ if(n>BLKMAX) return NULL; memset(blk,0xa5,n); return blk; } void v_exec_free(void*p){ (void)p; } long v_exec_offset(void*p){ (void)p; return 0; }
static void __attribute__((constructor)) ini(void){ blk=mmap((void*)0x60000000,BLKMAX,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(blk!=(u8*)0x60000000){ fprintf(stderr,"HARNESS: cannot map the code block\n"); _exit(9); } }
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
unsigned __aeabi_uidivmod(unsigned a,unsigned b){ return b?a/b:0; }
int __aeabi_idivmod(int a,int b){ return b?a/b:0; }
#endif
#endif
static u64 sm(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static u64 rs; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static unsigned rn(unsigned n){ return n?(unsigned)((rnd()>>33)%n):0; }
static u64 cur; static const char*prof="forms"; static long nfail,n_forms,n_sup,n_unsup,n_inv,n_ab,n_custom,n_idx,n_vals,n_feat,n_cmp,n_same; static int maxfail=5,o_print; static FILE*fforms;
static int fail(const char*kind,const char*f,...){ va_list a; char b[700]; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); printf("FAIL profile=%s seed=%llu kind=%s | %s\n",prof,(unsigned long long)cur,kind,b); fflush(stdout); nfail++; return 1; }
static void form_seen(const char*f,...){ va_list a; if(!fforms) return; va_start(a,f); vfprintf(fforms,f,a); va_end(a); fputc('\n',fforms); }
static void onsig(int s){ printf("FAIL profile=%s seed=%llu kind=signal | signal %d\n",prof,(unsigned long long)cur,s); fflush(stdout); _exit(1); }
static struct sljit_compiler* begin(void)
{
  struct sljit_compiler*c=sljit_create_compiler(NULL); s32 v=SLJIT_NUMBER_OF_VECTOR_REGISTERS;
  if(!c){ fprintf(stderr,"HARNESS: create\n"); exit(9); }
  if(sljit_emit_enter(c,0,SLJIT_ARGS1(W,P),5|SLJIT_ENTER_FLOAT(6)|(v>0?SLJIT_ENTER_VECTOR(v>6?6:v):0),3,64)!=SLJIT_SUCCESS){ fprintf(stderr,"HARNESS: enter failed\n"); exit(9); } /* S0 data */
  return c;
}
enum { M_MEMUP,M_FMEMUP,M_AL,M_AS,M_SMOV,M_SREP,M_SLMOV,M_SLREP,M_SEXT,M_SSIGN,M_SOP2,M_KINDS };
static const char*mn[]={"mem_update","fmem_update","atomic_load","atomic_store","simd_mov","simd_replicate","simd_lane_mov","simd_lane_replicate","simd_extend","simd_sign","simd_op2"};
typedef struct { int k; s32 t,a,b,c; sw w; } form;
static s32 testbit(int k){ return k<=M_FMEMUP?SLJIT_MEM_SUPP:k<=M_AS?SLJIT_ATOMIC_TEST:SLJIT_SIMD_TEST; }
static s32 emit(struct sljit_compiler*c,const form*f,int test)
{
  s32 t=f->t|(test?testbit(f->k):0);
  switch(f->k){
  case M_MEMUP: return sljit_emit_mem_update(c,t,f->a,f->b,f->w);
  case M_FMEMUP: return sljit_emit_fmem_update(c,t,f->a,f->b,f->w);
  case M_AL: return sljit_emit_atomic_load(c,t,f->a,f->b);
  case M_AS: return sljit_emit_atomic_store(c,t,f->a,f->b,f->c);
  case M_SMOV: return sljit_emit_simd_mov(c,t,f->a,f->b,f->w);
  case M_SREP: return sljit_emit_simd_replicate(c,t,f->a,f->b,f->w);
  case M_SLMOV: return sljit_emit_simd_lane_mov(c,t,f->a,f->c,f->b,f->w);
  case M_SLREP: return sljit_emit_simd_lane_replicate(c,t,f->a,f->b,f->c);
  case M_SEXT: return sljit_emit_simd_extend(c,t,f->a,f->b,f->w);
  case M_SSIGN: return sljit_emit_simd_sign(c,t,f->a,f->b,f->w);
  default: return sljit_emit_simd_op2(c,t,f->a,f->b,f->c,f->w);
  }
}
static const s32 gr[]={SLJIT_R0,SLJIT_R1,SLJIT_R2,SLJIT_R3,SLJIT_S1,SLJIT_S2};
static s32 G(void){ return gr[rn(6)]; } static s32 G3(void){ return gr[rn(3)]; } static s32 F(void){ return SLJIT_FR(rn(6)); } static s32 V(void){ unsigned v=SLJIT_NUMBER_OF_VECTOR_REGISTERS; return SLJIT_VR(rn(v>6?6:v)); }
static s32 mem(sw*w){ static const sw o[]={0,8,16,255,256,-256,-257,4095,4096,-2048,2047,2048,32767,32768,0x12340,-1,1,4,-8,1020,1024,0x7ffffff0}; switch(rn(5)){ case 0: *w=(sw)rn(4); return SLJIT_MEM2(SLJIT_S0,G3()); case 1: *w=(sw)(0x1000+rn(65536)*8); return SLJIT_MEM0(); default: *w=o[rn(22)]; return SLJIT_MEM1(rn(3)?SLJIT_S0:G3()); } }
static void genform(form*f)
{
  static const s32 mt[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32,SLJIT_MOV_P,SLJIT_MOV32,SLJIT_MOV_U8|SLJIT_32,SLJIT_MOV_S8|SLJIT_32,SLJIT_MOV_U16|SLJIT_32,SLJIT_MOV_S16|SLJIT_32,SLJIT_MOV32};
  static const s32 sz[]={SLJIT_SIMD_REG_64,SLJIT_SIMD_REG_128,SLJIT_SIMD_REG_128,SLJIT_SIMD_REG_256,SLJIT_SIMD_REG_512}; static const s32 al[]={SLJIT_SIMD_MEM_UNALIGNED,SLJIT_SIMD_MEM_ALIGNED_16,SLJIT_SIMD_MEM_ALIGNED_32,SLJIT_SIMD_MEM_ALIGNED_64,SLJIT_SIMD_MEM_ALIGNED_128,SLJIT_SIMD_MEM_ALIGNED_256};
  s32 st=sz[rn(5)]|(s32)(rn(5)<<18)|(rn(3)?0:SLJIT_SIMD_FLOAT); s32 ld=rn(2)?SLJIT_SIMD_STORE:0; sw w=0; int fl=(st&SLJIT_SIMD_FLOAT)!=0, l2=(int)((st>>12)&7)-(int)((st>>18)&7); s32 m;
  memset(f,0,sizeof*f); f->k=rn(3)?(int)(M_SMOV+rn(7)):(int)rn(4); f->w=0;
  switch(f->k){
  case M_MEMUP: f->t=mt[rn(14)]|(rn(2)?SLJIT_MEM_STORE:0)|(rn(2)?SLJIT_MEM_POST:0); do f->a=G(); while(f->a==SLJIT_S0); do m=mem(&w); while(!(m&0xff)); f->b=m; f->w=w; break;
  case M_FMEMUP: f->t=(rn(2)?SLJIT_MOV_F64:SLJIT_MOV_F32)|(rn(2)?SLJIT_MEM_STORE:0)|(rn(2)?SLJIT_MEM_POST:0); f->a=F(); do m=mem(&w); while(!(m&0xff)); f->b=m; f->w=w; break;
  case M_AL: f->t=mt[rn(14)]|(rn(3)?0:rn(2)?SLJIT_ATOMIC_USE_CAS:SLJIT_ATOMIC_USE_LS); f->a=G(); f->b=rn(2)?SLJIT_S0:G3(); break;
  case M_AS: f->t=mt[rn(14)]|(rn(3)?0:rn(2)?SLJIT_ATOMIC_USE_CAS:SLJIT_ATOMIC_USE_LS)|(rn(2)?SLJIT_SET_ATOMIC_STORED:0); f->a=G(); f->b=rn(2)?SLJIT_S0:G3(); f->c=G(); break;
  case M_SMOV: f->t=st|ld; f->a=V(); if(rn(4)==0) f->b=V(); else { f->b=mem(&w); f->w=w; f->t|=al[rn(6)]; } break;
  case M_SREP: f->t=st; f->a=V(); switch(rn(4)){ case 0: f->b=SLJIT_IMM; f->w=rn(2)?0:(sw)rnd(); if(fl) f->w=0; break; case 1: f->b=fl?V():G(); break; case 2: f->b=mem(&w); f->w=w; break; default: f->b=fl?V():G(); } break;
  case M_SLMOV: f->t=st|ld|(rn(3)?0:SLJIT_SIMD_LANE_ZERO)|(rn(3)||fl?0:SLJIT_SIMD_LANE_SIGNED)|(rn(4)?0:SLJIT_32); if(f->t&SLJIT_SIMD_STORE) f->t&=~SLJIT_SIMD_LANE_ZERO; else f->t&=~(SLJIT_SIMD_LANE_SIGNED|SLJIT_32); f->a=V(); f->c=(s32)rn(l2>0&&l2<8?1u<<l2:1); if(rn(2)){ f->b=mem(&w); f->w=w; f->t&=~(SLJIT_SIMD_LANE_SIGNED|SLJIT_32); } else f->b=fl?V():G(); break;
  case M_SLREP: f->t=st; f->a=V(); f->b=V(); f->c=(s32)rn(l2>0&&l2<8?1u<<l2:1); break;
  case M_SEXT: f->t=st|(s32)((((unsigned)st>>18)&7)+1+rn(2))<<24|(rn(2)&&!fl?SLJIT_SIMD_EXTEND_SIGNED:0); f->a=V(); if(rn(2)) f->b=V(); else { f->b=mem(&w); f->w=w; } break;
  case M_SSIGN: f->t=st|(rn(3)?0:SLJIT_32); f->a=V(); if(rn(2)) f->b=G(); else { f->b=mem(&w); f->w=w; } break;
  default: f->t=st|(s32)(1+rn(4)); f->a=V(); f->b=V(); if(rn(2)) f->c=V(); else { f->c=mem(&w); f->w=w; f->t|=al[rn(6)]; } 
  }
}
static char fs_[200]; static const char*fstr(const form*f){ snprintf(fs_,sizeof fs_,"%s type=0x%x a=0x%x b=0x%x c=0x%x w=%lld",mn[f->k],(unsigned)f->t,(unsigned)f->a,(unsigned)f->b,(unsigned)f->c,(long long)f->w); return fs_; }
/* queries which must not have any effect */
static void noise(struct sljit_compiler*c,const form*f,int nf)
{
  int k; for(k=0;k<3;k++) switch(rn(5)){
    case 0: sljit_has_cpu_feature((s32)rn(300)); break; case 1: sljit_cmp_info(SLJIT_ORDERED_EQUAL+(s32)rn(14)); break;
    case 2: sljit_get_register_index(rn(2)?SLJIT_GP_REGISTER:SLJIT_FLOAT_REGISTER,SLJIT_R(rn(3))); break;
    case 3: sljit_get_register_index(SLJIT_SIMD_REG_128,SLJIT_VR0); break;
    default: if(nf) emit(c,&f[rn((unsigned)nf)],1); }
}
/* custom instructions: valid lengths for the target, any contents */
static s32 custom(struct sljit_compiler*c,u8*out,unsigned*len,int*exact)
{
  u8 b[16] __attribute__((aligned(16))); unsigned k,n=4; for(k=0;k<16;k++) b[k]=(u8)rnd(); *exact=1;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
  n=1+rn(15);
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
  n=2+2*rn(3); b[0]=(u8)((b[0]&0x3f)|(n==2?0:n==4?0x40:0xc0)); 
#ifdef WITH_EMIT
  *exact=0; /* byte order of the host */
#endif
#elif (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6) || (defined SLJIT_CONFIG_ARM_V7 && SLJIT_CONFIG_ARM_V7)
  b[3]=(u8)(0xe0+rn(5)); /* not a pc relative load: those are taken for literal loads of the library */
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  n=rn(2)?2:4; if(n==2) b[1]&=0x7f; else b[3]|=0xf0;
#endif
  memcpy(out,b,16);
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  if(n==4){ memcpy(out,b+2,2); memcpy(out+2,b,2); }
#endif
  *len=n; n_custom++; return sljit_emit_op_custom(c,b,n);
}
#define NF 24
static u8*codecopy[2]; static size_t codelen[2];
static int compile_forms(int which,const form*f,const s32*sup,int nf,u64 seed)
{
  struct sljit_compiler*c=begin(); int k; void*code; u8 exp[8][200]; unsigned el[8]; int ex[8]; struct sljit_label*l[8][2]; int nx=0; s32 r; u64 sv=rs,ns=sm(seed); int ok=0;
  (void)sv; rs=sm(seed^77)|1; sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_MEM1(SLJIT_S0),8);
  for(k=0;k<nf;k++){
    if(which){ u64 x=rs; rs=ns|1; noise(c,f,nf); ns=rs; rs=x; if(sljit_get_compiler_error(c)!=SLJIT_SUCCESS){ fail("query-error","a query set the error of the compiler to %d before %s",(int)sljit_get_compiler_error(c),fstr(&f[k])); goto out; } }
    if(rn(3)==0) sljit_emit_op2(c,SLJIT_ADD,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,(sw)rn(100));
    if(rn(8)==0&&nx<8){ unsigned j,n=1+rn(4),len; int e; l[nx][0]=sljit_emit_label(c); el[nx]=0; ex[nx]=1; for(j=0;j<n;j++){ u8 t[16]; if(custom(c,t,&len,&e)!=SLJIT_SUCCESS){ fail("custom-result","sljit_emit_op_custom failed"); goto out; } memcpy(exp[nx]+el[nx],t,len); el[nx]+=len; ex[nx]&=e; if(which){ u64 x_=rs; rs=ns|1; noise(c,f,nf); ns=rs; rs=x_; } } l[nx][1]=sljit_emit_label(c); nx++; }
    if(which){ r=emit(c,&f[k],1); if(r!=sup[k]){ fail("query-unstable","%s: the test flag gives %d, but %d in a fresh compiler",fstr(&f[k]),(int)r,(int)sup[k]); goto out; } if(r!=SLJIT_SUCCESS) continue; }
    r=emit(c,&f[k],0);
    if(r!=sup[k]){ fail("query-differs","%s: the test flag gives %d, emission gives %d",fstr(&f[k]),(int)sup[k],(int)r); goto out; }
    if(sljit_get_compiler_error(c)!=SLJIT_SUCCESS){ fail("form-error","%s sets compiler error %d",fstr(&f[k]),(int)sljit_get_compiler_error(c)); goto out; }
  }
  sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); code=sljit_generate_code(c,0,NULL);
  if(!code){ fail("generate","code generation failed: %d",(int)sljit_get_compiler_error(c)); goto out; }
  codelen[which]=sljit_get_generated_code_size(c); codecopy[which]=realloc(codecopy[which],codelen[which]+1);
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
  code=(void*)((uw)code&~(uw)1);
#endif
  memcpy(codecopy[which],code,codelen[which]);
  for(k=0;k<nx;k++){ uw a=sljit_get_label_addr(l[k][0])&~(uw)(sizeof(void*)==4?0:0),b=sljit_get_label_addr(l[k][1]);
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
    a&=~(uw)1; b&=~(uw)1;
#endif
    if(ex[k]&&b-a!=el[k]){ fail("custom-size","custom instructions of %u bytes take %ld bytes",el[k],(long)(b-a)); goto out2; } if(ex[k]&&memcmp((void*)a,exp[k],el[k])){ fail("custom-bytes","custom instruction bytes were changed"); goto out2; } }
  ok=1;
out2: sljit_free_code(code,NULL);
out: sljit_free_compiler(c); return ok;
}
static void one_forms(u64 seed)
{
  form f[NF]; s32 sup[NF]; int n=0,tries=0; rs=sm(seed)|1;
  while(n<NF&&tries++<NF*6){ form q; struct sljit_compiler*c; s32 r,r2,e; genform(&q); c=begin(); r=emit(c,&q,1); e=sljit_get_compiler_error(c); n_forms++;
    if(r==SLJIT_ERR_BAD_ARGUMENT){ n_inv++; sljit_free_compiler(c); continue; }
    if(r!=SLJIT_SUCCESS&&r!=SLJIT_ERR_UNSUPPORTED){ fail("query-result","%s: the test flag returns %d",fstr(&q),(int)r); sljit_free_compiler(c); return; }
    if(e!=SLJIT_SUCCESS){ fail("query-error","%s: the test flag sets the error of the compiler to %d",fstr(&q),(int)e); sljit_free_compiler(c); return; }
    r2=emit(c,&q,1); if(r2!=r){ fail("query-unstable","%s: the test flag gives %d, then %d",fstr(&q),(int)r,(int)r2); sljit_free_compiler(c); return; }
    sljit_free_compiler(c);
    if(r==SLJIT_SUCCESS) n_sup++; else n_unsup++;
    form_seen("%d %x %d %d %d",q.k,(unsigned)q.t,(q.b&SLJIT_MEM)?1+((q.b&0xff)!=0)+((q.b&0xff00&~SLJIT_MEM)!=0):0,(q.c&SLJIT_MEM)!=0,(int)r);
    if(o_print) printf("  %s -> %s\n",fstr(&q),r?"unsupported":"supported"); f[n]=q; sup[n++]=r; }
  if(!n||nfail>=maxfail) return;
  if(!compile_forms(0,f,sup,n,seed)) return; if(!compile_forms(1,f,sup,n,seed)) return; n_ab++;
  if(codelen[0]!=codelen[1]||memcmp(codecopy[0],codecopy[1],codelen[0])){ size_t k; for(k=0;k<codelen[0]&&k<codelen[1]&&codecopy[0][k]==codecopy[1][k];k++); fail("query-emits","the code changes when queries are made between the instructions (%lu and %lu bytes, first difference at %lu)",(unsigned long)codelen[0],(unsigned long)codelen[1],(unsigned long)k); } else n_same++;
}
/* size of one operation in bytes */
static long opsize(int what,int arg,s32*ret)
{
  struct sljit_compiler*c=begin(); struct sljit_label*a,*b; void*code; long n=-1; s32 r=SLJIT_SUCCESS; int k;
  sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_MEM1(SLJIT_S0),0); sljit_emit_op1(c,SLJIT_MOV,SLJIT_R1,0,SLJIT_MEM1(SLJIT_S0),8); a=sljit_emit_label(c);
  switch(what){
  case 0: r=sljit_emit_op1(c,arg,SLJIT_R2,0,SLJIT_R1,0); break;
  case 1: r=sljit_emit_op2(c,arg,SLJIT_R0,0,SLJIT_R0,0,SLJIT_R1,0); break;
  case 2: r=sljit_emit_op_src(c,arg,SLJIT_MEM1(SLJIT_S0),0); break;
  case 3: r=sljit_emit_fcopy(c,arg,SLJIT_FR0,SLJIT_R0); break;
  case 4: sljit_emit_op2u(c,SLJIT_SUB|SLJIT_SET_Z,SLJIT_R0,0,SLJIT_R1,0); a=0; sljit_set_current_flags(c,0); sljit_free_compiler(c); return -1;
  case 5: k=(arg&1); arg&=~1; { struct sljit_jump*j=sljit_emit_fcmp(c,arg|(k?SLJIT_32:0),SLJIT_FR0,0,SLJIT_FR1,0); sljit_set_label(j,a); r=sljit_get_compiler_error(c); } break;
  case 6: r=sljit_emit_op0(c,arg); break;
  }
  if(ret) *ret=r; if(r==SLJIT_ERR_UNSUPPORTED){ sljit_free_compiler(c); return -2; }
  b=sljit_emit_label(c); sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); code=sljit_generate_code(c,0,NULL); if(code){ n=(long)(sljit_get_label_addr(b)-sljit_get_label_addr(a)); sljit_free_code(code,NULL); } sljit_free_compiler(c); return n;
}
static void feat(const char*n,int v,int want,long size){ n_feat++; form_seen("feature %s %d",n,v); if(o_print) printf("  feature %s=%d size %ld\n",n,v,size); if(v!=want) fail("feature","sljit_has_cpu_feature(%s)=%d contradicts the generated code (%ld bytes)",n,v,size); }
#if defined __x86_64__ && !defined WITH_EMIT || defined __i386__ && !defined WITH_EMIT
#include <cpuid.h>
#define HAVE_CPUID 1
#endif
static void features(void)
{
  int k,v[300],pass; long s; s32 r; int minf=1<<30; long fsz[64];
  for(pass=0;pass<2;pass++) for(k=0;k<300;k++){ int x=sljit_has_cpu_feature(k); n_feat++; if(pass&&x!=v[k]) fail("feature-unstable","feature %d: %d then %d",k,v[k],x); v[k]=x; if(x!=0&&x!=1&&!(x==2&&k>=SLJIT_HAS_CLZ&&k<=SLJIT_HAS_PREFETCH)) fail("feature-value","sljit_has_cpu_feature(%d)=%d",k,x); if(x&&((k>SLJIT_HAS_MEMORY_BARRIER&&k<100)||(k>103&&k<200)||k>203)) fail("feature-value","unknown feature %d is reported as available",k); }
#define SZ(f,nm,what,arg,lim) if(v[f]!=2){ s=opsize(what,arg,&r); if(r!=SLJIT_SUCCESS) fail("feature","%s: emission fails with %d",nm,(int)r); feat(nm,v[f],s<=(lim),s); }
  SZ(SLJIT_HAS_CLZ,"SLJIT_HAS_CLZ",0,SLJIT_CLZ,16) SZ(SLJIT_HAS_CTZ,"SLJIT_HAS_CTZ",0,SLJIT_CTZ,16) SZ(SLJIT_HAS_REV,"SLJIT_HAS_REV",0,SLJIT_REV,16)
  SZ(SLJIT_HAS_ROT,"SLJIT_HAS_ROT",1,SLJIT_ROTL,15) SZ(SLJIT_HAS_ROT,"SLJIT_HAS_ROT",1,SLJIT_ROTR,15)
  { long p=opsize(2,SLJIT_PREFETCH_L1,&r); feat("SLJIT_HAS_PREFETCH",v[SLJIT_HAS_PREFETCH]!=0,p>0,p); }
  { long p=opsize(6,SLJIT_MEMORY_BARRIER,&r); feat("SLJIT_HAS_MEMORY_BARRIER",v[SLJIT_HAS_MEMORY_BARRIER],r==SLJIT_SUCCESS&&p>0,p); }
  { /* atomic: the word sized load and store are supported exactly when the feature is reported */
    struct sljit_compiler*c=begin(); r=sljit_emit_atomic_load(c,SLJIT_MOV|SLJIT_ATOMIC_TEST,SLJIT_R0,SLJIT_S0); feat("SLJIT_HAS_ATOMIC",v[SLJIT_HAS_ATOMIC],r==SLJIT_SUCCESS,0); sljit_free_compiler(c); c=begin(); r=sljit_emit_atomic_store(c,SLJIT_MOV|SLJIT_ATOMIC_TEST,SLJIT_R1,SLJIT_S0,SLJIT_R0); feat("SLJIT_HAS_ATOMIC",v[SLJIT_HAS_ATOMIC],r==SLJIT_SUCCESS,0); sljit_free_compiler(c); c=begin();
    r=sljit_emit_simd_mov(c,SLJIT_SIMD_TEST|SLJIT_SIMD_REG_128|SLJIT_SIMD_ELEM_32,SLJIT_VR0,SLJIT_MEM1(SLJIT_S0),0); feat("SLJIT_HAS_SIMD",v[SLJIT_HAS_SIMD],r==SLJIT_SUCCESS,0); sljit_free_compiler(c); }
  { int neg=0,i; for(i=0;i<SLJIT_NUMBER_OF_REGISTERS;i++) if(sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_R(i))<0) neg++; feat("SLJIT_HAS_VIRTUAL_REGISTERS",v[SLJIT_HAS_VIRTUAL_REGISTERS],neg>0,neg); }
  if(v[SLJIT_HAS_SIMD]){ int i,pairs=1; for(i=0;i+1<SLJIT_NUMBER_OF_VECTOR_REGISTERS&&i<8;i+=2) if(sljit_get_register_index(SLJIT_SIMD_REG_128,SLJIT_VR(i))!=sljit_get_register_index(SLJIT_SIMD_REG_128,SLJIT_VR(i+1))) pairs=0; feat("SLJIT_SIMD_REGS_ARE_PAIRS",v[SLJIT_SIMD_REGS_ARE_PAIRS],pairs,0); }
#ifdef HAVE_CPUID
  { unsigned a,b,c,d; int lz=0,tz=0,av=0,av2=0,os=0; __cpuid(0x80000000,a,b,c,d); if(a>=0x80000001){ __cpuid(0x80000001,a,b,c,d); lz=(c>>5)&1; } __cpuid(0,a,b,c,d); if(a>=7){ __cpuid_count(7,0,a,b,c,d); tz=(b>>3)&1; av2=(b>>5)&1; } __cpuid(1,a,b,c,d); os=(c>>27)&1; av=(c>>28)&1; if(os){ unsigned lo,hi; __asm__ __volatile__("xgetbv":"=a"(lo),"=d"(hi):"c"(0)); if((lo&6)!=6) av=0; } else av=0; if(!av) av2=0;
    feat("SLJIT_HAS_CLZ (cpuid)",v[SLJIT_HAS_CLZ],lz?1:2,0); feat("SLJIT_HAS_CTZ (cpuid)",v[SLJIT_HAS_CTZ],tz?1:2,0); feat("SLJIT_HAS_AVX (cpuid)",v[SLJIT_HAS_AVX],av,0); feat("SLJIT_HAS_AVX2 (cpuid)",v[SLJIT_HAS_AVX2],av2,0); }
#endif
  for(pass=0;pass<2;pass++){ minf=1<<30; for(k=0;k<14;k++){ fsz[k]=opsize(5,(SLJIT_ORDERED_EQUAL+k)|pass,0); }
    for(k=0;k<14;k++) if(fsz[k]<minf) minf=(int)fsz[k];
    (void)minf; }
}
static void cmpinfo(void)
{
  int k,pass; long s[40],m; int info[40];
  for(pass=0;pass<2;pass++){ m=0x7fffffffL;
    for(k=SLJIT_F_EQUAL;k<=SLJIT_ORDERED_LESS_EQUAL;k++){ struct sljit_compiler*c=begin(); struct sljit_label*a=sljit_emit_label(c),*b; struct sljit_jump*j=sljit_emit_fcmp(c,k|(pass?SLJIT_32:0),SLJIT_FR0,0,SLJIT_FR1,0); void*code; s[k]=-1; b=sljit_emit_label(c); if(!j){ fail("cmp-emit","sljit_emit_fcmp(%d) failed",k); sljit_free_compiler(c); return; } sljit_set_label(j,a); sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0); code=sljit_generate_code(c,0,NULL); if(code){ s[k]=(long)(sljit_get_label_addr(b)-sljit_get_label_addr(a)); sljit_free_code(code,NULL); } sljit_free_compiler(c); if(s[k]<m) m=s[k]; }
    for(k=SLJIT_F_EQUAL;k<=SLJIT_ORDERED_LESS_EQUAL;k++){ info[k]=sljit_cmp_info(k); n_cmp++; if(k<SLJIT_UNORDERED) continue; form_seen("cmp %d %d",k,info[k]); if(o_print) printf("  cmp_info(%d)=%d size %ld (smallest %ld)\n",k,info[k],s[k],m);
      if(info[k]<0||info[k]>2) fail("cmp-info","sljit_cmp_info(%d)=%d",k,info[k]);
      else if((info[k]==0)!=(s[k]==m)) fail("cmp-info","sljit_cmp_info(%d)=%d, but the comparison takes %ld bytes and the simplest one %ld",k,info[k],s[k],m); } }
}
static void indexes(void)
{
  static s32 seen[512]; int i; s32 x; memset(seen,0,sizeof seen);
  for(i=0;i<SLJIT_NUMBER_OF_REGISTERS;i++){ x=sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_R(i)); n_idx++; if(x<0) continue; if(x>63||seen[x]) fail("index","general register %d has index %d, which is shared or invalid",i,(int)x); else seen[x]=1; }
  for(i=0;i<SLJIT_NUMBER_OF_SAVED_REGISTERS;i++) if(sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_S(i))!=sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_R(SLJIT_NUMBER_OF_REGISTERS-1-i))) fail("index","S%d differs from its other name",i);
  x=sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_SP); if(x<0||x>63||seen[x]) fail("index","the stack pointer has index %d",(int)x);
  memset(seen,0,sizeof seen); for(i=0;i<SLJIT_NUMBER_OF_FLOAT_REGISTERS;i++){ x=sljit_get_register_index(SLJIT_FLOAT_REGISTER,SLJIT_FR(i)); n_idx++; if(x<0||x>63||seen[x]) fail("index","floating point register %d has index %d, which is shared or invalid",i,(int)x); else seen[x]=1; }
}
#ifndef WITH_EMIT
/* ---- hand-encoded instructions ---- */
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
#define ENC 1
static unsigned x86(u8*o,int pre,int op2,int op,int reg,int base,int off,int w){ unsigned n=0; if(pre) o[n++]=(u8)pre; (void)w;
#if defined __x86_64__
  { int rex=(w?0x48:0)|((reg&8)?0x44:0)|((base&8)?0x41:0); if(rex) o[n++]=(u8)rex; }
#endif
  if(op2) o[n++]=(u8)op2; o[n++]=(u8)op; o[n++]=(u8)(0x80|((reg&7)<<3)|(base&7)); if((base&7)==4) o[n++]=0x24; memcpy(o+n,&off,4); return n+4; }
static unsigned e_st(u8*o,int r,int b,int f){ return x86(o,0,0,0x89,r,b,f,1); } static unsigned e_ld(u8*o,int r,int b,int f){ return x86(o,0,0,0x8b,r,b,f,1); }
static unsigned e_fst(u8*o,int r,int b,int f){ return x86(o,0xf2,0x0f,0x11,r,b,f,0); } static unsigned e_fld(u8*o,int r,int b,int f){ return x86(o,0xf2,0x0f,0x10,r,b,f,0); }
#define ENCV 1
static unsigned e_vst(u8*o,int r,int b,int f){ return x86(o,0,0x0f,0x11,r,b,f,0); } static unsigned e_vld(u8*o,int r,int b,int f){ return x86(o,0,0x0f,0x10,r,b,f,0); }
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
#define ENC 1
#define ENCV 1
static unsigned e6(u8*o,int op,int r,int b,int f,int op2){ o[0]=(u8)op; o[1]=(u8)(r<<4); o[2]=(u8)((b<<4)|(f>>8)); o[3]=(u8)f; o[4]=0; o[5]=(u8)op2; return 6; }
static unsigned e_st(u8*o,int r,int b,int f){ return e6(o,0xe3,r,b,f,0x24); } static unsigned e_ld(u8*o,int r,int b,int f){ return e6(o,0xe3,r,b,f,0x04); }
static unsigned e_fst(u8*o,int r,int b,int f){ o[0]=0x60; o[1]=(u8)(r<<4); o[2]=(u8)((b<<4)|(f>>8)); o[3]=(u8)f; return 4; } static unsigned e_fld(u8*o,int r,int b,int f){ e_fst(o,r,b,f); o[0]=0x68; return 4; }
static unsigned e_vst(u8*o,int r,int b,int f){ e6(o,0xe7,r&15,b,f,0x0e); o[4]=(u8)(r&16?8:0); return 6; } static unsigned e_vld(u8*o,int r,int b,int f){ e_vst(o,r,b,f); o[5]=0x06; return 6; }
#else
#define ENC 1
static unsigned p32(u8*o,u32 i){ memcpy(o,&i,4); return 4; }
#define U(x) ((u32)(x))
#if (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
#define ENCV 1
static unsigned e_st(u8*o,int r,int b,int f){ return p32(o,0xf9000000|U(f/8)<<10|U(b)<<5|U(r)); } static unsigned e_ld(u8*o,int r,int b,int f){ return p32(o,0xf9400000|U(f/8)<<10|U(b)<<5|U(r)); }
static unsigned e_fst(u8*o,int r,int b,int f){ return p32(o,0xfd000000|U(f/8)<<10|U(b)<<5|U(r)); } static unsigned e_fld(u8*o,int r,int b,int f){ return p32(o,0xfd400000|U(f/8)<<10|U(b)<<5|U(r)); }
static unsigned e_vst(u8*o,int r,int b,int f){ return p32(o,0x3d800000|U(f/16)<<10|U(b)<<5|U(r)); } static unsigned e_vld(u8*o,int r,int b,int f){ return p32(o,0x3dc00000|U(f/16)<<10|U(b)<<5|U(r)); }
#elif (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
static unsigned e_st(u8*o,int r,int b,int f){ return p32(o,0xf8c00000|U(b)<<16|U(r)<<12|U(f)); } static unsigned e_ld(u8*o,int r,int b,int f){ return p32(o,0xf8d00000|U(b)<<16|U(r)<<12|U(f)); }
#else
static unsigned e_st(u8*o,int r,int b,int f){ return p32(o,0xe5800000|U(b)<<16|U(r)<<12|U(f)); } static unsigned e_ld(u8*o,int r,int b,int f){ return p32(o,0xe5900000|U(b)<<16|U(r)<<12|U(f)); }
#endif
static unsigned e_fst(u8*o,int r,int b,int f){ return p32(o,0xed800b00|U(b)<<16|U(r&15)<<12|U(r>>4)<<22|U(f/4)); } static unsigned e_fld(u8*o,int r,int b,int f){ return p32(o,0xed900b00|U(b)<<16|U(r&15)<<12|U(r>>4)<<22|U(f/4)); }
#elif (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
static unsigned rst(u8*o,u32 i,int r,int b,int f){ return p32(o,i|U(f&31)<<7|U(f>>5)<<25|U(b)<<15|U(r)<<20); } static unsigned rld(u8*o,u32 i,int r,int b,int f){ return p32(o,i|U(f)<<20|U(b)<<15|U(r)<<7); }
static unsigned e_st(u8*o,int r,int b,int f){ return rst(o,sizeof(sw)==8?0x3023:0x2023,r,b,f); } static unsigned e_ld(u8*o,int r,int b,int f){ return rld(o,sizeof(sw)==8?0x3003:0x2003,r,b,f); }
static unsigned e_fst(u8*o,int r,int b,int f){ return rst(o,0x3027,r,b,f); } static unsigned e_fld(u8*o,int r,int b,int f){ return rld(o,0x3007,r,b,f); }
#elif (defined SLJIT_CONFIG_LOONGARCH_64 && SLJIT_CONFIG_LOONGARCH_64)
#define ENCV 1
static unsigned la(u8*o,u32 i,int r,int b,int f){ return p32(o,i|U(f)<<10|U(b)<<5|U(r)); }
static unsigned e_st(u8*o,int r,int b,int f){ return la(o,0x29c00000,r,b,f); } static unsigned e_ld(u8*o,int r,int b,int f){ return la(o,0x28c00000,r,b,f); }
static unsigned e_fst(u8*o,int r,int b,int f){ return la(o,0x2bc00000,r,b,f); } static unsigned e_fld(u8*o,int r,int b,int f){ return la(o,0x2b800000,r,b,f); }
static unsigned e_vst(u8*o,int r,int b,int f){ return la(o,0x2c400000,r,b,f); } static unsigned e_vld(u8*o,int r,int b,int f){ return la(o,0x2c000000,r,b,f); }
#elif (defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
static unsigned pp(u8*o,u32 i,int r,int b,int f){ return p32(o,i|U(r)<<21|U(b)<<16|U(f)); }
static unsigned e_st(u8*o,int r,int b,int f){ return pp(o,sizeof(sw)==8?0xf8000000:0x90000000,r,b,f); } static unsigned e_ld(u8*o,int r,int b,int f){ return pp(o,sizeof(sw)==8?0xe8000000:0x80000000,r,b,f); }
static unsigned e_fst(u8*o,int r,int b,int f){ return pp(o,0xd8000000,r,b,f); } static unsigned e_fld(u8*o,int r,int b,int f){ return pp(o,0xc8000000,r,b,f); }
#elif (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
static unsigned mi(u8*o,u32 i,int r,int b,int f){ return p32(o,i|U(b)<<21|U(r)<<16|U(f)); }
static unsigned e_st(u8*o,int r,int b,int f){ return mi(o,sizeof(sw)==8?0xfc000000:0xac000000,r,b,f); } static unsigned e_ld(u8*o,int r,int b,int f){ return mi(o,sizeof(sw)==8?0xdc000000:0x8c000000,r,b,f); }
static unsigned e_fst(u8*o,int r,int b,int f){ return mi(o,0xf4000000,r,b,f); } static unsigned e_fld(u8*o,int r,int b,int f){ return mi(o,0xd4000000,r,b,f); }
#endif
#endif
/* data: in words 0..31, out 256.. (64 words of 8 bytes), vectors in 768.. (5), out 848.. (10) */
static u8 D[1024] __attribute__((aligned(64)));
static u64 fbits(double d){ u64 x; memcpy(&x,&d,8); return x; }
static void one_regs(u64 seed)
{
  struct sljit_compiler*c; int k,n,no=0,nvo=0,j; sw eg[SLJIT_NUMBER_OF_REGISTERS+1]; double ef[SLJIT_NUMBER_OF_FLOAT_REGISTERS]; u8 ev[16][16]; int nv,simd; sw oexp[64]; int okind[64]; u64 oexf[64]; u8 vexp[10][16]; static char desc[64][96]; u8 ins[16] __attribute__((aligned(16))); unsigned len; s32 base; int nr,ns,nf,nfs; void*code; struct sljit_label*lb[400][2]; u8 ib[400][16]; unsigned il[400]; int nl=0; s32 regs[64]; int nreg=0; int loc; sw spo=-1,lbo=-1;
  rs=sm(seed)|1; memset(D,0xee,sizeof D); for(k=0;k<32;k++){ if(k<16){ sw v=(sw)rnd(); memset(D+8*k,0,8); memcpy(D+8*k,&v,sizeof v); } else { double d=(double)(int64_t)(rnd()>>12)*0.25-1e9; memcpy(D+8*k,&d,8); } } for(k=768;k<848;k++) D[k]=(u8)rnd();
  n=SLJIT_NUMBER_OF_REGISTERS; ns=1+(int)rn(SLJIT_NUMBER_OF_SAVED_REGISTERS); nr=1+(int)rn((unsigned)(n-ns)); if(rn(3)==0){ ns=SLJIT_NUMBER_OF_SAVED_REGISTERS; nr=n-ns; if(nr<1) ns--,nr++; }
  nf=SLJIT_NUMBER_OF_FLOAT_REGISTERS; nfs=rn(2)?0:(int)rn(SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS+1); nf=1+(int)rn((unsigned)(nf-nfs)); 
#if defined ENCV || (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
  simd=sljit_has_cpu_feature(SLJIT_HAS_SIMD)!=0; nv=simd?1+(int)rn(8):0; if(nv>SLJIT_NUMBER_OF_VECTOR_REGISTERS-SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS) nv=SLJIT_NUMBER_OF_VECTOR_REGISTERS-SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS; if(nv>4&&nv>nf) nv=4;
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
  nv=(nv+1)&~1;
#endif
#else
  simd=0; nv=0;
#endif
  for(k=0;k<nr;k++) regs[nreg++]=SLJIT_R(k); for(k=1;k<ns;k++) regs[nreg++]=SLJIT_S(k);
  loc=(int)rn(5)*64; c=sljit_create_compiler(NULL);
  if(sljit_emit_enter(c,0,SLJIT_ARGS1(W,P),nr|SLJIT_ENTER_FLOAT(nf)|(nv?SLJIT_ENTER_VECTOR(nv):0),ns|SLJIT_ENTER_FLOAT(nfs),loc)!=SLJIT_SUCCESS){ fprintf(stderr,"HARNESS: enter %d %d %d %d %d\n",nr,ns,nf,nfs,nv); exit(9); }
  base=sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_S0); if(base<0){ fail("index","S0 has no index"); goto out; }
#define CUSTOM(x) do{ u8 t_[16]; memset(ins,0,16); len=(x); if(nl<400) lb[nl][0]=sljit_emit_label(c); if(sljit_emit_op_custom(c,ins,len)!=SLJIT_SUCCESS){ fail("custom-result","sljit_emit_op_custom failed"); goto out; } if(nl<400){ lb[nl][1]=sljit_emit_label(c); memcpy(t_,ins,16); memcpy(ib[nl],t_,16); il[nl++]=len; } n_custom++; }while(0)
  for(k=0;k<nreg;k++){ sw v=(sw)rnd(); eg[k]=v; sljit_emit_op1(c,SLJIT_MOV,regs[k],0,SLJIT_IMM,v); }
  { s32 fr[64]; int nfr=0; for(k=0;k<nf;k++) fr[nfr++]=SLJIT_FR(k); for(k=0;k<nfs;k++) fr[nfr++]=SLJIT_FS(k);
  if(nv){ for(k=0;k<nv;k++){ memcpy(ev[k],D+768+16*(k%5),16); } }
  for(k=0;k<nfr;k++){ j=16+(int)rn(16); memcpy(&ef[k],D+8*j,8); }
  /* floats and vectors may be the same machine registers: one kind per program */
  if(nv&&rn(2)){ nfr=0; for(k=0;k<nv;k++){
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
      memcpy(ev[k|1],D+768+16*(k%5),16); memcpy(ev[k&~1],D+768+16*(k%5),16);
#endif
      sljit_emit_simd_mov(c,SLJIT_SIMD_LOAD|SLJIT_SIMD_REG_128|SLJIT_SIMD_ELEM_8,SLJIT_VR(k),SLJIT_MEM1(SLJIT_S0),768+16*(k%5)); } } else { nv=0; for(k=0;k<nfr;k++){ for(j=16;j<32;j++) if(!memcmp(D+8*j,&ef[k],8)) break; sljit_emit_fop1(c,SLJIT_MOV_F64,fr[k],0,SLJIT_MEM1(SLJIT_S0),8*j); } }
  n=10+(int)rn(50);
  for(k=0;k<n&&no<40&&nvo<9;k++) switch(rn(8)){
    case 0: if(nreg){ j=(int)rn((unsigned)nreg); { sw v=(sw)rnd(); sljit_emit_op1(c,SLJIT_MOV,regs[j],0,SLJIT_IMM,v); eg[j]=v; } } break;
    case 1: if(nreg){ int a=(int)rn((unsigned)nreg),b=(int)rn((unsigned)nreg); j=(int)rn((unsigned)nreg); sljit_emit_op2(c,SLJIT_ADD,regs[j],0,regs[a],0,regs[b],0); eg[j]=(sw)((uw)eg[a]+(uw)eg[b]); } break;
    case 2: case 3: if(nreg){ s32 x; j=(int)rn((unsigned)nreg); x=sljit_get_register_index(SLJIT_GP_REGISTER,regs[j]); n_idx++; if(x<0) break;
        if(rn(2)){ CUSTOM(e_st(ins,x,base,256+8*no)); snprintf(desc[no],96,"register %d (index %d) seen by a custom store",(int)regs[j],(int)x); okind[no]=0; oexp[no++]=eg[j]; form_seen("gst %d %d",(int)regs[j],(int)x); }
        else { int q=(int)rn(16); CUSTOM(e_ld(ins,x,base,8*q)); memcpy(&eg[j],D+8*q,sizeof(sw)); form_seen("gld %d %d",(int)regs[j],(int)x); } } break;
    case 4: case 5: if(nfr){ s32 x; j=(int)rn((unsigned)nfr); x=sljit_get_register_index(SLJIT_FLOAT_REGISTER,fr[j]); n_idx++;
        if(rn(2)){ CUSTOM(e_fst(ins,x,base,256+8*no)); snprintf(desc[no],96,"floating point register %d (index %d) seen by a custom store",(int)fr[j],(int)x); okind[no]=1; oexf[no++]=fbits(ef[j]); form_seen("fst %d %d",(int)fr[j],(int)x); }
        else { int q=16+(int)rn(16); CUSTOM(e_fld(ins,x,base,8*q)); memcpy(&ef[j],D+8*q,8); form_seen("fld %d %d",(int)fr[j],(int)x); } } break;
    case 6: if(nv){ s32 x; j=(int)rn((unsigned)nv); x=sljit_get_register_index(SLJIT_SIMD_REG_128,SLJIT_VR(j)); n_idx++; if(x<0){ fail("index","a supported vector register has index %d",(int)x); goto out; }
        if(rn(2)){ 
#ifdef ENCV
          CUSTOM(e_vst(ins,x,base,848+16*nvo));
#else
          CUSTOM(e_fst(ins,x,base,848+16*nvo)); CUSTOM(e_fst(ins,x+1,base,856+16*nvo));
#endif
          memcpy(vexp[nvo++],ev[j],16); form_seen("vst %d %d",j,(int)x); }
        else { int q=(int)rn(5);
#ifdef ENCV
          CUSTOM(e_vld(ins,x,base,768+16*q));
#else
          CUSTOM(e_fld(ins,x,base,768+16*q)); CUSTOM(e_fld(ins,x+1,base,776+16*q)); memcpy(ev[j^1],D+768+16*q,16);
#endif
          memcpy(ev[j],D+768+16*q,16); form_seen("vld %d %d",j,(int)x); } } break;
    case 7: if(loc&&spo<0&&no<38&&nreg){ s32 x=sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_SP);
#if (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
        { s32 y=sljit_get_register_index(SLJIT_GP_REGISTER,SLJIT_R0); sw v=(sw)rnd(); CUSTOM(p32(ins,0x91000000|U(x)<<5|U(y))); sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),256+8*no,SLJIT_R0,0); sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,v); eg[0]=v; }
#else
        CUSTOM(e_st(ins,x,base,256+8*no));
#endif
        spo=no; okind[no++]=2; sljit_get_local_base(c,SLJIT_MEM1(SLJIT_S0),256+8*no,0); lbo=no; okind[no++]=2; } break; }
  /* everything else is unchanged */
  for(k=0;k<nreg&&no<62;k++){ sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),256+8*no,regs[k],0); snprintf(desc[no],96,"register %d at the end",(int)regs[k]); okind[no]=0; oexp[no++]=eg[k]; }
  for(k=0;k<nfr&&no<63;k++){ sljit_emit_fop1(c,SLJIT_MOV_F64,SLJIT_MEM1(SLJIT_S0),256+8*no,fr[k],0); snprintf(desc[no],96,"floating point register %d at the end",(int)fr[k]); okind[no]=1; oexf[no++]=fbits(ef[k]); }
  for(k=0;k<nv&&nvo<10;k++){ sljit_emit_simd_mov(c,SLJIT_SIMD_STORE|SLJIT_SIMD_REG_128|SLJIT_SIMD_ELEM_8,SLJIT_VR(k),SLJIT_MEM1(SLJIT_S0),848+16*nvo); memcpy(vexp[nvo++],ev[k],16); } }
  sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,1234); code=sljit_generate_code(c,0,NULL); if(!code){ fail("generate","code generation failed: %d",(int)sljit_get_compiler_error(c)); goto out; }
  for(k=0;k<nl;k++){ uw a=sljit_get_label_addr(lb[k][0]),b=sljit_get_label_addr(lb[k][1]); u8 t[16]; memcpy(t,ib[k],16);
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
    a&=~(uw)1; b&=~(uw)1; if(il[k]==4){ memcpy(t,ib[k]+2,2); memcpy(t+2,ib[k],2); }
#endif
    if(b-a!=il[k]){ fail("custom-size","a custom instruction of %u bytes takes %ld bytes",il[k],(long)(b-a)); goto out2; } if(memcmp((void*)a,t,il[k])){ fail("custom-bytes","custom instruction bytes were changed"); goto out2; } }
  { sw (*SLJIT_FUNC fn)(void*)=(sw(*SLJIT_FUNC)(void*))code; if(fn(D)!=1234){ fail("result","wrong return value"); goto out2; } }
  for(k=0;k<no;k++){ n_vals++; if(okind[k]==0){ sw v; memcpy(&v,D+256+8*k,sizeof v); if(v!=oexp[k]){ fail("value","%s: %llx, expected %llx",desc[k],(unsigned long long)(uw)v,(unsigned long long)(uw)oexp[k]); goto out2; } } else if(okind[k]==1){ u64 v; memcpy(&v,D+256+8*k,8); if(v!=oexf[k]){ fail("value","%s: %llx, expected %llx",desc[k],(unsigned long long)v,(unsigned long long)oexf[k]); goto out2; } } }
  if(spo>=0){ uw a,b; memcpy(&a,D+256+8*spo,sizeof a); memcpy(&b,D+256+8*lbo,sizeof b); if(b-a>4096){ fail("value","the stack pointer register holds %llx, the locals start at %llx",(unsigned long long)a,(unsigned long long)b); goto out2; } }
  for(k=0;k<nvo;k++){ n_vals++; if(memcmp(D+848+16*k,vexp[k],16)){ fail("value","vector output %d differs",k); goto out2; } }
  n_same++;
out2: sljit_free_code(code,NULL);
out: sljit_free_compiler(c);
}
#endif
int main(int argc,char**argv)
{
  u64 seed=1; long count=10; int k; long i; static const int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT};
  for(k=1;k<argc;k++){ char*e=strchr(argv[k],'='); if(!e) return 9; e++; if(!strncmp(argv[k],"seed=",5)) seed=strtoull(e,0,0); else if(!strncmp(argv[k],"count=",6)) count=atol(e); else if(!strncmp(argv[k],"profile=",8)) prof=e; else if(!strncmp(argv[k],"maxfail=",8)) maxfail=atoi(e); else if(!strncmp(argv[k],"print=",6)) o_print=atoi(e); else if(!strncmp(argv[k],"forms=",6)) fforms=fopen(e,"w"); else return 9; }
  for(k=0;k<5;k++) signal(sg[k],onsig);
  cur=seed; if(!strcmp(prof,"forms")){ features(); cmpinfo(); indexes(); }
  for(i=0;i<count&&nfail<maxfail;i++){ cur=seed+(u64)i; 
#ifndef WITH_EMIT
    if(!strcmp(prof,"regs")) one_regs(cur); else
#endif
    one_forms(cur); }
  printf("STAT runs=%ld forms=%ld supported=%ld unsupported=%ld invalid=%ld program_pairs=%ld identical=%ld custom_instructions=%ld indexes=%ld values=%ld feature_checks=%ld cmp_checks=%ld fails=%ld\n",i,n_forms,n_sup,n_unsup,n_inv,n_ab,n_same,n_custom,n_idx,n_vals,n_feat,n_cmp,nfail);
  return nfail?1:0;
}
