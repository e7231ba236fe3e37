/* Emission-only monitor (C13, part of C10): the code of any back end is generated on the host into exactly sized blocks. */
#include "emit.c"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#define UNPOISON(p,n) __msan_unpoison(p,n)
#endif
#endif
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
unsigned __aeabi_uidivmod(unsigned a,unsigned b){ return b?a/b:0; }
int __aeabi_idivmod(int a,int b){ return b?a/b:0; }
#endif
#if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
#define ARMV6 1 /* the constant pool is assembled inside the block, unused space and literals hold other values */
#else
#define ARMV6 0
#endif
#ifndef MSAN
#define UNPOISON(p,n) ((void)0)
#endif
#if (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
#define MIPS 1 /* the delay slot of a jump is written before the jump is moved */
#else
#define MIPS 0
#endif
static int jtail;
static struct sljit_label *endl;
static u8 *blk; static size_t blkn, lastn; static int nblk, failx; static long blkoff; static char xdet[600]; static int xbad;
static uw endaddr; long n_x_gen,n_x_rej,n_x_bytes,n_x_patch,n_x_same,n_x_scn,n_x_tail;
static void B(const char*f,...){ va_list a; if(xbad++) return; va_start(a,f); vsnprintf(xdet,sizeof xdet,f,a); va_end(a); }
void *v_exec_malloc(size_t n){ if(failx) return NULL; if(nblk) B("second executable block requested"); lastn=n; if(!n) B("empty executable block requested"); blk=malloc(n); blkn=n; nblk++;
#ifndef MSAN
  memset(blk,0xa5,n);
#endif
  return blk; }
void v_exec_free(void*p){ if(!nblk||(u8*)p!=blk+blkoff){ B("free of a wrong executable block %p (%p)",p,(void*)blk); return; } free(blk); blk=NULL; nblk--; }
long v_exec_offset(void*p){ if(p!=blk) B("offset of a wrong block"); return blkoff; }
static void checks(u8*base,uw cap,sw off,void*code,int seedk)
{
  uw s=code_size,k; uw lo=(uw)base+(uw)off,hi=lo+s; (void)seedk; n_x_gen++; n_x_bytes+=(long)s;
#if (defined SLJIT_INDIRECT_CALL && SLJIT_INDIRECT_CALL)
  { if((uw)code<lo||(uw)code>=lo+cap+64) B("function descriptor %p is outside of the block %lx",code,(long)lo); }
#else
  if(((uw)code&~(uw)1)!=lo) B("code is at %p instead of %lx",code,(long)lo);
#endif
  if(exec_off!=off) B("executable offset %ld instead of %ld",(long)exec_off,(long)off);
  if(!s||s>cap) B("reported size %lu, the block has %lu bytes",(long)s,(long)cap);
#ifndef MSAN
  for(k=s;k<cap&&!ARMV6&&!(MIPS&&jtail);k++) if(base[k]!=0xa5){ B("byte %lu is written, the reported size is %lu",(long)k,(long)s); break; }
#else
  { static u8 rob[1<<20]; int i,n; (void)rob; for(i=0;i<np;i++) if(prog[i].kind==K_ROBUF){ int al=(int)1<<prog[i].op; uw f=lab_abs[prog[i].lab]-(uw)off-(uw)base; if(f<=s){ uw st=f>(uw)al?f-(uw)al:0; __msan_unpoison(base+st,f-st); } for(n=0;n<prog[i].y;n++){ robuf*b=&robs[prog[i].x+n]; uw q=lab_abs[b->lab]-(uw)off-(uw)base; if(q<=s&&q+(uw)b->size+8<=s+8) __msan_unpoison(base+q,(uw)b->size+8<=s-q?(uw)b->size+8:s-q); } }
#if !(defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X) /* unused slots of its literal pool are not written */
    { sw z=__msan_test_shadow(base,s); if(z>=0) B("byte %ld of the generated code (%lu bytes) is uninitialised",(long)z,(long)s); }
#endif
  }
#endif
  if(endl&&((endaddr&~(uw)1)>hi||(endaddr&~(uw)1)<lo+(s>4?4:0))) B("the label after the last instruction is at %lx, the code is %lx-%lx",(long)endaddr,(long)lo,(long)hi);
  for(k=0;k<(uw)nlab;k++) if(L[k]){ uw a=lab_abs[k]&~(uw)1; if(a<lo||a>hi) B("label %lu at %lx is outside of the code %lx-%lx",(long)k,(long)a,(long)lo,(long)hi); }
}
static void patches(u8*base,uw n,sw off,int fullcheck)
{
  int k,j; u8*s=NULL; static s32 ops[2000]; for(k=0;k<np;k++) if(prog[k].kind==K_CONST) ops[prog[k].x]=prog[k].op;
  /* first pass: known values; then other values and back: the bytes must be as after the first pass */
  for(j=0;j<3;j++){ u64 sv=es; if(j!=1) es=0x1234567;
    for(k=0;k<nconst;k++) if(C[k]){ s32 b=ops[k]&0xff; sw v=b==SLJIT_MOV_U8?(sw)er(256):b==SLJIT_MOV?(sw)(((u64)er(0x10000)<<48)^((u64)er(0x10000)<<32)^((u64)er(0x10000)<<16)^er(0x10000)):(sw)(s32)((er(0x10000)<<16)^er(0x10000)); if(er(4)==0&&b!=SLJIT_MOV_U8) v=er(2)?-(sw)er(3):(sw)er(3); sljit_set_const(const_addr[k],ops[k],v,off); n_x_patch++; }
    for(k=0;k<np;k++) if(jump_rew[k]){ int t=(int)er((u32)nlab); if(!L[t]) t=prog[k].lab; sljit_set_jump_addr(jump_addr[k],er(4)?lab_addr[t]:(uw)0x10000+er(0x8000)*16,off); n_x_patch++; }
    if(j==0){ if(fullcheck){ s=malloc(n); memcpy(s,base,n); } } else if(j==1) { } else if(s){ n_x_same++; UNPOISON(base,n); UNPOISON(s,n); for(k=0;(uw)k<n;k++) if(s[k]!=base[k]){ B("byte %d of the code differs after rewriting values and restoring them",k); break; } }
    if(j!=1) es=sv; }
  free(s);
  for(k=0;k<nrob;k++){ robuf*b=&robs[k]; u8*p=sljit_read_only_buffer_start_writing(lab_abs[b->lab],(uw)b->size,off); if(p<base||p+b->size>base+n) B("read-only buffer %d is outside of the code",k); else memset(p,k,(size_t)b->size); sljit_read_only_buffer_end_writing(lab_abs[b->lab],(uw)b->size,off); n_x_patch++; }
}
/* the code may end with any instruction; the last ones decide how far the generator may write */
static void tail(struct sljit_compiler*c,u64 seed)
{
  u64 x=(seed^0x7a11)*0x9E3779B97F4A7C15ull; int k,i,n; struct sljit_jump*j; struct sljit_label*l=NULL; static const uw T[]={0x1000,0x40,0x12345670,0x7ffffff0,(uw)0xfffffff0u,(uw)((u64)0x1234567ull<<32|0x1230),~(uw)0xf};
#define TR(m) ((int)((x=x*6364136223846793005ull+1442695040888963407ull)>>33)%(m))
  jtail=0; if(TR(3)) return;
  for(i=0;i<8&&!l;i++) l=L[TR(nlab>0?nlab:1)];
  n=1+TR(3);
  for(i=0;i<n;i++) switch(k=TR(8)){
    case 0: case 1: case 2: case 3: k=TR(4); j=sljit_emit_op_addr(c,TR(3),k?SLJIT_R0:SLJIT_MEM0(),k?0:0x1230); if(j){ if(l&&TR(2)) sljit_set_label(j,l); else sljit_set_target(j,T[TR((int)(sizeof T/sizeof*T))]); n_x_tail++; } break;
    case 4: sljit_emit_ijump(c,SLJIT_JUMP,SLJIT_R0,0); break;
    case 5: case 6: j=sljit_emit_jump(c,(k==5?SLJIT_JUMP:SLJIT_FAST_CALL)|(TR(3)?0:SLJIT_REWRITABLE_JUMP)); jtail=1; if(j){ if(l&&TR(2)) sljit_set_label(j,l); else sljit_set_target(j,T[TR((int)(sizeof T/sizeof*T))]); n_x_tail++; } break;
    default: sljit_emit_const(c,SLJIT_MOV,SLJIT_R0,0,(sljit_sw)T[TR((int)(sizeof T/sizeof*T))]); break; }
}
/* returns 0, 1 violation, 2 rejected */
int emit_check(struct emit_opt*eo,u64 seed,const char**d)
{
  struct sljit_compiler*c; void*code; struct sljit_generate_code_buffer gb; uw R,S; sw off; int pass; u64 rs0=seed|1;
  xbad=0; xdet[0]=0; *d=xdet; nblk=0; free(blk); blk=NULL; n_x_scn++;
  if(emit_program(eo,&c)){ *d=emit_err; return 2; }
  tail(c,rs0); endl=er(2)?sljit_emit_label(c):NULL;
  es=rs0; blkoff=(long)(sw)(er(2)?0:(sw)((er(2)?1:-1)*(sw)((uw)er(0x8000)<<16))); failx=0;
  code=sljit_generate_code(c,0,NULL); if(!code){ B("generate_code failed with %d",(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); goto end; }
  memset(lab_abs,0,sizeof(uw)*(size_t)nlab); collect(c); endaddr=endl?sljit_get_label_addr(endl):0; sljit_free_compiler(c); R=lastn; S=code_size;
  if(nblk!=1) B("%d executable blocks in use",nblk);
  checks(blk,blkn,blkoff,code,0); es=rs0*77|1; if(!xbad) patches(blk,S,blkoff,!ARMV6);
  sljit_free_code(code,NULL); if(nblk) B("sljit_free_code did not free the executable block"); 
  if(xbad) goto end;
  /* code buffers of exactly the requested size and one byte less */
  for(pass=0;pass<2;pass++){
    u8*b; uw n=R-(uw)pass; if(emit_program(eo,&c)){ B("second emission: %s",emit_err); goto end; } tail(c,rs0); endl=er(2)?sljit_emit_label(c):NULL; es=rs0*3+1; off=er(2)?0:(sw)((uw)er(0x8000)<<16); b=malloc(n);
#ifndef MSAN
    memset(b,0xa5,n);
#endif
    gb.buffer=b; gb.size=n; gb.executable_offset=off; failx=1; code=sljit_generate_code(c,SLJIT_GENERATE_CODE_BUFFER,&gb); failx=0;
    if(!pass){ if(!code){ B("a code buffer of the size requested from the allocator (%lu) was rejected with error %d",(long)R,(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); free(b); goto end; } collect(c); endaddr=endl?sljit_get_label_addr(endl):0; checks(b,n,off,code,1); es=rs0*5|1; if(!xbad) patches(b,code_size,off,0); }
    else { uw k; n_x_rej++; if(code) B("a code buffer of %lu bytes was accepted, %lu are needed",(long)n,(long)R); else if(sljit_get_compiler_error(c)!=SLJIT_ERR_EX_ALLOC_FAILED) B("small code buffer: error is %d",(int)sljit_get_compiler_error(c));
#ifndef MSAN
      for(k=0;k<n;k++) if(b[k]!=0xa5){ B("rejected code buffer was written"); break; }
#endif
      (void)k; }
    sljit_free_compiler(c); free(b); if(xbad) break; }
end:
  if(blk){ free(blk); blk=NULL; nblk=0; }
  return xbad!=0;
}
