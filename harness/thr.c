/* C17: the same random programs compiled (and run) by several threads at once and by one thread alone. */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef sljit_uw uw; typedef sljit_sw sw; typedef uint64_t u64; typedef uint8_t u8; typedef sljit_s32 s32; typedef sljit_u32 u32;
#ifdef WITH_EMIT
#define RUN 0
void *v_exec_malloc(size_t n){ return malloc(n); } void v_exec_free(void*p){ free(p); } long v_exec_offset(void*p){ return 0; }
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
unsigned __aeabi_uidivmod(unsigned a,unsigned b){ return b?a/b:0; }
int __aeabi_idivmod(int a,int b){ return b?a/b:0; }
#endif
#else
#define RUN 1
#endif
static u64 sm(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static __thread u64 rs; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static unsigned rn(unsigned n){ return n?(unsigned)((rnd()>>33)%n):0; }
static u64 hash(const void*p,size_t n,u64 h){ const u8*b=p; size_t k; for(k=0;k<n;k++) h=(h^b[k])*0x100000001b3ULL; return h; }
#define DATA 2048
#define CBUF (256*1024)
typedef struct { u64 result, text, code, feat, size; s32 err; } res;
typedef struct { u64 seed; u8*data; u8*cbuf; res r[3]; int ran[3]; } cas;
static cas *cs; static int ncs; static int o_verb=1, o_print;
static sw SLJIT_FUNC helper(sw a,sw b){ return (sw)sm((u64)a*3+(u64)b); }
static int go; static int nthreads=4;
#define CK(x) do{ if((x)!=SLJIT_SUCCESS){ r->err=sljit_get_compiler_error(c); r->err=r->err?r->err:-100; sljit_free_compiler(c); if(vf){ fclose(vf); free(vt); } return; } }while(0)
static sw imm(void){ switch(rn(6)){ case 0: return (sw)rn(256); case 1: return -(sw)rn(5000); case 2: return (sw)rnd(); case 3: return (sw)(s32)rnd(); case 4: return (sw)1<<rn(8*sizeof(sw)); default: return (sw)rn(70000); } }
static const s32 regs[]={SLJIT_R0,SLJIT_R1,SLJIT_R2,SLJIT_R3,SLJIT_S1,SLJIT_S2,SLJIT_S3};
#define REG() regs[rn(7)]
static void src(s32*o,sw*w){ *w=0; switch(rn(4)){ case 0: *o=SLJIT_IMM; *w=imm(); break; case 1: *o=SLJIT_MEM1(SLJIT_S0); *w=(sw)rn(100)*(sw)sizeof(sw); break; default: *o=REG(); } }
static void dst(s32*o,sw*w){ *w=0; if(rn(4)) *o=REG(); else if(rn(3)){ *o=SLJIT_MEM1(SLJIT_S0); *w=(sw)rn(100)*(sw)sizeof(sw); } else { *o=SLJIT_MEM1(SLJIT_SP); *w=(sw)rn(16)*(sw)sizeof(sw); } }
static void one(cas*q,int which)
{
  res*r=&q->r[which]; struct sljit_compiler*c; FILE*vf=0; char*vt=0; size_t vn=0; int n,k,nc=0,nl=0,nj=0; struct sljit_const*cn[40]; struct sljit_jump*fj[200]; struct sljit_jump*rj[40]; struct sljit_label*lb[200]; int fjl[200]; struct sljit_label*e0; uw caddr[40],jaddr[40],laddr[200]; void*code; sw off; int simd,fpu,serial; s32 a,b,d; sw aw,bw,dw; struct sljit_generate_code_buffer gb; int useb=0;
  memset(r,0,sizeof*r); rs=sm(q->seed)|1; { u64 sv=rs; for(k=0;k<DATA;k+=8){ u64 v=rnd(); memcpy(q->data+k,&v,8); } rs=sv; rnd(); }
  r->feat=0; for(k=0;k<40;k++) r->feat=r->feat*31+(u64)(u32)sljit_has_cpu_feature(k);
  c=sljit_create_compiler(0); if(!c){ r->err=-1; return; }
  simd=sljit_has_cpu_feature(SLJIT_HAS_SIMD)!=0; fpu=sljit_has_cpu_feature(SLJIT_HAS_FPU)!=0; serial=(int)rn(3)==0;
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
  if(o_verb&&!serial&&rn(2)){ vf=open_memstream(&vt,&vn); sljit_compiler_verbose(c,vf); }
#endif
  CK(sljit_emit_enter(c,0,SLJIT_ARGS2(W,P,W),4|(fpu?SLJIT_ENTER_FLOAT(4):0)|(simd?SLJIT_ENTER_VECTOR(4):0),4,(s32)(16*sizeof(sw))));
  for(k=1;k<7;k++) CK(sljit_emit_op1(c,SLJIT_MOV,regs[k>=4?k:k],0,SLJIT_IMM,imm())); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,imm()));
  for(k=0;k<16;k++) CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),(sw)k*(sw)sizeof(sw),SLJIT_IMM,imm()));
  n=20+(int)rn(120);
  for(k=0;k<n;k++){ int x;
    for(x=0;x<nj;x++) if(fj[x]&&fjl[x]==k&&nl<199){ struct sljit_label*l=lb[nl++]=sljit_emit_label(c); sljit_set_label(fj[x],l); fj[x]=0; }
    switch(rn(14)){
    case 0: case 1: case 2: { static const s32 ops[]={SLJIT_ADD,SLJIT_SUB,SLJIT_MUL,SLJIT_AND,SLJIT_OR,SLJIT_XOR,SLJIT_SHL,SLJIT_LSHR,SLJIT_ASHR,SLJIT_ROTL}; s32 o=ops[rn(10)]; dst(&d,&dw); src(&a,&aw); src(&b,&bw); if(o>=SLJIT_SHL){ b=SLJIT_IMM; bw=(sw)rn(8*sizeof(sw)); } CK(sljit_emit_op2(c,o,d,dw,a,aw,b,bw)); break; }
    case 3: { static const s32 ops[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_CLZ,SLJIT_CTZ,SLJIT_REV}; s32 o=ops[rn(8)]; src(&a,&aw); if(a==SLJIT_IMM&&o>SLJIT_MOV_S16) a=REG(),aw=0; d=REG(); CK(sljit_emit_op1(c,o,d,0,a,aw)); break; }
    case 4: { struct sljit_jump*j; src(&a,&aw); src(&b,&bw); if(nj>=199) break; j=sljit_emit_cmp(c,(s32)rn(6)+SLJIT_EQUAL,a,aw,b,bw); if(!j) CK(1); fj[nj]=j; fjl[nj++]=k+1+(int)rn(8); break; }
    case 5: src(&a,&aw); src(&b,&bw); CK(sljit_emit_op2u(c,SLJIT_SUB|SLJIT_SET_LESS|SLJIT_SET_Z,a,aw,b,bw)); d=REG(); CK(sljit_emit_op_flags(c,SLJIT_MOV,d,0,rn(2)?SLJIT_LESS:SLJIT_ZERO)); break;
    case 6: CK(sljit_emit_op2u(c,SLJIT_SUB|SLJIT_SET_SIG_GREATER,REG(),0,SLJIT_IMM,imm())); d=REG(); CK(sljit_emit_select(c,SLJIT_SIG_GREATER,d,SLJIT_IMM,imm(),REG())); break;
    case 7: if(nc<39){ d=REG(); cn[nc]=sljit_emit_const(c,SLJIT_MOV,d,0,imm()); if(!cn[nc]) CK(1); nc++; } break;
    case 8: if(fpu){ CK(sljit_emit_fop1(c,SLJIT_CONV_F64_FROM_SW,SLJIT_FR0,0,REG(),0)); CK(sljit_emit_fop2(c,rn(2)?SLJIT_ADD_F64:SLJIT_MUL_F64,SLJIT_FR1,0,SLJIT_FR0,0,SLJIT_FR0,0)); CK(sljit_emit_fop1(c,SLJIT_MOV_F64,SLJIT_MEM1(SLJIT_S0),1024+8*(sw)rn(16),SLJIT_FR1,0)); } break;
    case 9: if(simd){ s32 t=SLJIT_SIMD_REG_128|SLJIT_SIMD_ELEM_32|SLJIT_SIMD_MEM_UNALIGNED; sw o=1280+(sw)rn(16)*16; if(sljit_emit_simd_mov(c,t|SLJIT_SIMD_LOAD|SLJIT_SIMD_TEST,SLJIT_VR0,SLJIT_MEM1(SLJIT_S0),o)==SLJIT_SUCCESS){ CK(sljit_emit_simd_mov(c,t|SLJIT_SIMD_LOAD,SLJIT_VR0,SLJIT_MEM1(SLJIT_S0),o)); CK(sljit_emit_simd_mov(c,t|SLJIT_SIMD_STORE,SLJIT_VR0,SLJIT_MEM1(SLJIT_S0),1536+(sw)rn(16)*16)); } } break;
    case 10: if(RUN){ CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R0,0,REG(),0)); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R1,0,SLJIT_IMM,imm())); CK(sljit_emit_icall(c,SLJIT_CALL,SLJIT_ARGS2(W,W,W),SLJIT_IMM,SLJIT_FUNC_ADDR(helper))); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R1,0,SLJIT_IMM,imm())); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R2,0,SLJIT_IMM,imm())); CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_R3,0,SLJIT_IMM,imm())); } break;
    case 11: { struct sljit_jump*j; struct sljit_label*l; CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),0,SLJIT_IMM,1+(sw)rn(5))); l=sljit_emit_label(c); CK(sljit_emit_op2(c,SLJIT_ADD,REG(),0,REG(),0,SLJIT_IMM,imm())); CK(sljit_emit_op2(c,SLJIT_SUB|SLJIT_SET_Z,SLJIT_MEM1(SLJIT_SP),0,SLJIT_MEM1(SLJIT_SP),0,SLJIT_IMM,1)); j=sljit_emit_jump(c,SLJIT_NOT_ZERO); if(!l||!j) CK(1); sljit_set_label(j,l); break; }
    case 12: if(nj<190){ struct sljit_jump*j=sljit_emit_jump(c,SLJIT_JUMP|(rn(3)?0:SLJIT_REWRITABLE_JUMP)); if(!j) CK(1); for(x=(int)rn(20);x;x--) CK(sljit_emit_op0(c,SLJIT_NOP)); fj[nj]=j; fjl[nj++]=k+1; } break;
    default: if(rn(40)==0&&k>5){ for(x=0;x<700;x++) CK(sljit_emit_op2(c,SLJIT_ADD,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,x)); } break; }
    if(serial&&!rn(60)&&!nj&&!nc&&!nl){ uw*sb; uw sz=0; sb=sljit_serialize_compiler(c,0,&sz); if(!sb) CK(1); sljit_free_compiler(c); c=sljit_deserialize_compiler(sb,sz,0,0); free(sb); if(!c){ r->err=-50; return; } }
  }
  for(k=0;k<nj;k++) if(fj[k]){ lb[nl]=sljit_emit_label(c); sljit_set_label(fj[k],lb[nl]); if(nl<199) nl++; }
  for(k=0;k<7;k++) CK(sljit_emit_op1(c,SLJIT_MOV,SLJIT_MEM1(SLJIT_S0),900+(sw)k*(sw)sizeof(sw)-900%8,regs[k],0));
  for(k=0;k<16;k++){ CK(sljit_emit_op2(c,SLJIT_XOR,SLJIT_R0,0,SLJIT_R0,0,SLJIT_MEM1(SLJIT_SP),(sw)k*(sw)sizeof(sw))); CK(sljit_emit_op2(c,SLJIT_MUL,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,31)); }
  CK(sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0)); e0=lb[0]; (void)e0; (void)rj; (void)jaddr; (void)laddr;
  if(vf){ fflush(vf); r->text=hash(vt,vn,1); }
  useb=q->cbuf&&rn(2);
  if(useb){ gb.buffer=q->cbuf; gb.size=CBUF; gb.executable_offset=0; code=sljit_generate_code(c,SLJIT_GENERATE_CODE_BUFFER,&gb); } else code=sljit_generate_code(c,0,0);
  if(!code) CK(1);
  r->size=useb?sljit_get_generated_code_size(c):0; off=sljit_get_executable_offset(c); for(k=0;k<nc;k++) caddr[k]=sljit_get_const_addr(cn[k]);
  if(useb) r->code=hash(q->cbuf,sljit_get_generated_code_size(c),7);
  if(vf){ fclose(vf); free(vt); vf=0; } sljit_free_compiler(c);
  if(RUN){ sw v; for(k=0;k<2;k++){ int x; v=((sw(SLJIT_FUNC*)(void*,sw))(uw)code)(q->data,5); r->result=hash(&v,sizeof v,r->result+1); r->result=hash(q->data,DATA,r->result); for(x=0;x<nc;x++) if(rn(2)) sljit_set_const(caddr[x],SLJIT_MOV,imm(),off); } }
  else for(k=0;k<nc;k++) sljit_set_const(caddr[k],SLJIT_MOV,imm(),off);
  if(!useb) sljit_free_code(code,0);
  if(!RUN&&useb) r->code=hash(q->cbuf,(size_t)r->size,r->code);
}
static pthread_barrier_t bar;
static void *thr(void*p){ long id=(long)p; int k,pass; pthread_barrier_wait(&bar); __atomic_fetch_add(&go,1,__ATOMIC_RELAXED); for(k=0;k<1000000&&__atomic_load_n(&go,__ATOMIC_RELAXED)<nthreads;k++);
  for(pass=0;pass<2;pass++){ for(k=0;k<ncs;k++) if((k+pass)%nthreads==(int)id){ one(&cs[k],pass); cs[k].ran[pass]=1; if(!(k%7)){ struct sljit_stack*s=sljit_allocate_stack(1000+(uw)k*10,100000,0); if(s){ memset(s->start,k,(size_t)(s->end-s->start)); sljit_stack_resize(s,s->end-500); sljit_stack_resize(s,s->end-20000); memset(s->start,k,(size_t)(s->end-s->start)); sljit_free_stack(s,0); }
#ifndef WITH_EMIT
      if(!(k%3)) sljit_free_unused_memory_exec();
#endif
    } } pthread_barrier_wait(&bar); }
  return 0; }
static volatile u64 cseed;
static void onsig(int s){ char b[200]; int n=snprintf(b,sizeof b,"FAIL profile=thr seed=%llu kind=crash signal %d\nSTAT runs=1 fails=1\n",(unsigned long long)cseed,s); if(write(1,b,(size_t)n)<0){} _exit(1); }
int main(int argc,char**argv)
{
  u64 seed=1; int j,k,nf=0,warm=0,count=0; const char*forms=0; static u8 alt[65536]; stack_t st; struct sigaction sa; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGABRT,SIGFPE,SIGALRM}; long nform=0;
  ncs=64; for(j=1;j<argc;j++){ char*e=strchr(argv[j],'='); if(!e) continue; *e++=0; if(!strcmp(argv[j],"seed")) seed=strtoull(e,0,0); else if(!strcmp(argv[j],"cases")) ncs=atoi(e); else if(!strcmp(argv[j],"threads")) nthreads=atoi(e); else if(!strcmp(argv[j],"warm")) warm=atoi(e); else if(!strcmp(argv[j],"verb")) o_verb=atoi(e); else if(!strcmp(argv[j],"count")) count=atoi(e); else if(!strcmp(argv[j],"forms")) forms=e; else if(!strcmp(argv[j],"print")) o_print=atoi(e); }
  if(count>1){ u64 s; int bad=0; for(s=seed;s<seed+(u64)count;s++){ int stt=0; pid_t p=fork(); if(!p){ seed=s; goto child; } if(p<0) return 9; waitpid(p,&stt,0); if(!WIFEXITED(stt)||WEXITSTATUS(stt)){ int x=WIFEXITED(stt)?WEXITSTATUS(stt):200; if(x==9) return 9; bad=bad>x?bad:x; if(x!=1&&x!=66) printf("FAIL profile=thr seed=%llu kind=died status %x\n",(unsigned long long)s,stt); } if(bad>1) break; } return bad; }
child: cseed=seed; setvbuf(stdout,0,_IOLBF,1<<16);
  memset(&st,0,sizeof st); st.ss_sp=alt; st.ss_size=sizeof alt; sigaltstack(&st,0); memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_NODEFER; for(j=0;j<6;j++) sigaction(sg[j],&sa,0); alarm(200);
  cs=calloc((size_t)ncs,sizeof*cs); for(k=0;k<ncs;k++){ cs[k].seed=seed*1000+(u64)k; cs[k].data=calloc(1,DATA);
#if !(defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
    cs[k].cbuf=mmap(0,CBUF,PROT_READ|PROT_WRITE|(RUN?PROT_EXEC:0),MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(cs[k].cbuf==MAP_FAILED) cs[k].cbuf=0;
#endif
  }
  if(warm){ struct sljit_compiler*c=sljit_create_compiler(0); void*p; struct sljit_stack*s; for(k=0;k<40;k++) sljit_has_cpu_feature(k); sljit_emit_enter(c,0,SLJIT_ARGS0V(),1,0,0); sljit_emit_return_void(c); p=sljit_generate_code(c,0,0); sljit_free_compiler(c); sljit_free_code(p,0); s=sljit_allocate_stack(100,10000,0); sljit_stack_resize(s,s->end-5000); sljit_stack_resize(s,s->end-10); sljit_free_stack(s,0); }
  pthread_barrier_init(&bar,0,(unsigned)nthreads);
  { pthread_t t[64]; for(k=0;k<nthreads;k++) if(pthread_create(&t[k],0,thr,(void*)(long)k)){ fprintf(stderr,"HARNESS thread\n"); return 9; } for(k=0;k<nthreads;k++) pthread_join(t[k],0); }
  for(k=0;k<ncs;k++){ int p; one(&cs[k],2); if(cs[k].r[2].err){ printf("FAIL profile=thr seed=%llu kind=error case %d fails with error %d without other threads\n",(unsigned long long)seed,k,cs[k].r[2].err); nf++; break; }
    for(p=0;p<2;p++){ res*a=&cs[k].r[p],*b=&cs[k].r[2]; nform++; const char*w=!cs[k].ran[p]?"not run":a->err!=b->err?"error code":a->feat!=b->feat?"cpu features":a->result!=b->result?"result":a->text!=b->text?"verbose text":a->size!=b->size?"code size":a->code!=b->code?"code bytes":0; if(w){ printf("FAIL profile=thr seed=%llu kind=differs case %d pass %d: %s differs between a run with %d threads and a run alone (error %d)\n",(unsigned long long)seed,k,p,w,nthreads,a->err); nf++; break; } }
    if(nf>3) break; }
  { long nres=0,ntext=0,nbytes=0; for(k=0;k<ncs;k++){ nres++; ntext+=cs[k].r[2].text!=0; nbytes+=cs[k].r[2].size!=0; }
    printf("STAT runs=%ld programs=%ld verbose_texts=%ld code_images=%ld threads=%d fails=%d\n",nform,nres,ntext,nbytes,nthreads,nf); }
  if(forms){ FILE*f=fopen(forms,"a"); if(f){ for(k=0;k<ncs;k++) fprintf(f,"%llx\n",(unsigned long long)(cs[k].r[2].result^cs[k].r[2].code)); fclose(f); } }
  return nf?1:0;
}
