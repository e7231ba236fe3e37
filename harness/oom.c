/* Allocation fault injection (C12). Every request for memory made by the library goes through the wrappers below, which keep
   a ledger of live blocks and mappings and can make one request, or all requests from one on, fail. */
#include "emit.c"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
void*__real_malloc(size_t); void __real_free(void*); void*__real_mmap64(void*,size_t,int,int,int,long long); int __real_munmap(void*,size_t); int __real_ftruncate64(int,long long); int __real_memfd_create(const char*,unsigned); int __real_mprotect(void*,size_t,int);
static int track; static long req, fail_at=-1, fail_from=-1, fired, fired_soft, n_live, n_maps, n_req;
#define LIVE 4096
static struct { void*p; size_t n; } live[LIVE]; static struct { char*p; size_t n; } maps[LIVE];
static char oomdet[600]; static int oombad;
static void B(const char*f,...){ va_list a; if(oombad++) return; va_start(a,f); vsnprintf(oomdet,sizeof oomdet,f,a); va_end(a); }
static int deny(int soft){ long r; if(!track) return 0; r=req++; n_req++; if(r==fail_at||(fail_from>=0&&r>=fail_from)){ if(soft) fired_soft++; else fired++; return 1; } return 0; }
void*__wrap_malloc(size_t n){ void*p; if(!track) return __real_malloc(n); if(deny(0)){ errno=ENOMEM; return NULL; } p=__real_malloc(n); if(p){ memset(p,0xd3,n); if(n_live>=LIVE) B("ledger full"); else { live[n_live].p=p; live[n_live++].n=n; } } return p; }
void __wrap_free(void*p){ long k; if(!track){ __real_free(p); return; } if(!p) return; for(k=0;k<n_live;k++) if(live[k].p==p) break; if(k==n_live){ B("free of a block which is not live: %p",p); return; } memset(p,0xdd,live[k].n); live[k]=live[--n_live]; __real_free(p); }
/* the plain names may have a 32 bit offset */
void*__wrap_mmap64(void*a,size_t n,int pr,int fl,int fd,long long o){ void*p; if(!track) return __real_mmap64(a,n,pr,fl,fd,o); if(deny(0)){ errno=ENOMEM; return MAP_FAILED; } p=__real_mmap64(a,n,pr,fl,fd,o); if(p!=MAP_FAILED){ if(n_maps>=LIVE) B("map ledger full"); else { maps[n_maps].p=p; maps[n_maps++].n=n; } } return p; }
int __wrap_munmap(void*a,size_t n){ long k; char*p=a; int hit=0; if(!track) return __real_munmap(a,n); 
  for(k=0;k<n_maps;k++){ char*s=maps[k].p,*e=s+maps[k].n; if(p<e&&p+n>s){ hit=1; if(p<s||p+n>e){ B("munmap %p+%lx exceeds the mapping %p+%lx",a,(long)n,(void*)s,(long)maps[k].n); } 
     if(p==s&&p+n==e){ maps[k]=maps[--n_maps]; } else if(p==s){ maps[k].p+=n; maps[k].n-=n; } else if(p+n==e) maps[k].n-=n; else { maps[k].n=(size_t)(p-s); maps[n_maps].p=p+n; maps[n_maps++].n=(size_t)(e-(p+n)); } break; } }
  if(!hit) B("munmap of %p+%lx which is not mapped by the library",a,(long)n); return __real_munmap(a,n); }
int __wrap_ftruncate64(int fd,long long n){ if(deny(0)){ errno=ENOSPC; return -1; } return __real_ftruncate64(fd,n); }
void*__wrap_mmap(void*a,size_t n,int pr,int fl,int fd,long o){ return __wrap_mmap64(a,n,pr,fl,fd,o); } int __wrap_ftruncate(int fd,long n){ return __wrap_ftruncate64(fd,n); }
int __wrap_memfd_create(const char*s,unsigned f){ if(deny(1)){ errno=ENFILE; return -1; } return __real_memfd_create(s,f); }
int __wrap_mprotect(void*a,size_t n,int p){ return __real_mprotect(a,n,p); }
static int nfds(void){ int n=0; DIR*d=opendir("/proc/self/fd"); if(!d) return 0; while(readdir(d)) n++; closedir(d); return n; }
long n_oom_faults,n_oom_scen,n_oom_after,n_oom_gen; u64 oom_forms[1<<16]; static void form(u64 f){ u32 h=(u32)((f*0x9e3779b97f4a7c15ULL)>>48); while(oom_forms[h]&&oom_forms[h]!=f+1) h=(h+1)&0xffff; oom_forms[h]=f+1; }
struct scen { int tight, tightk, serk, ncall; s32 scr,sav; int codebuf, allocm; u64 seed; void*cb; };
static uw cbsize,smallsize;
#if defined(__x86_64__)||defined(__i386__)
#define TIGHTS 500
#else
#define TIGHTS 120
#endif
#define FRAGMAX (4096-2*sizeof(uw))
/* one pass over: create, emit everything, serialize once, generate, free. Checks every call. */
static uw scenario(struct scen*q)
{
  struct sljit_compiler*c,*c2; int k,e0,e1; long f0,fi,fs; s32 r; uw size0,csize=0; void*code; struct sljit_generate_code_buffer gb; int hard;
  n_oom_scen++; req=0; fired=fired_soft=0; fi=fail_from; es=q->seed|1; emit_nconst=0; njo=0; lastj=NULL; memset(L,0,sizeof(L[0])*(size_t)(nlab+1)); memset(J,0,sizeof(J[0])*(size_t)np); memset(jump_rew,0,(size_t)np); memset(C,0,sizeof C);
  if(q->tight) fail_from=-1;
  track=1; f0=fired; c=sljit_create_compiler(NULL); track=0;
  if(!c){ if(fired==f0) B("create_compiler returned NULL although no allocation failed"); form(1); goto ends; } if(fired!=f0) B("create_compiler succeeded although an allocation failed");
  track=1; r=sljit_emit_enter(c,c_opt,c_args,q->scr,q->sav,c_loc); track=0; e1=sljit_get_compiler_error(c);
  if(r!=e1) B("emit_enter returned %d, error is %d",(int)r,e1); if(fired&&e1!=SLJIT_ERR_ALLOC_FAILED) B("allocation failed in emit_enter, error is %d",e1); if(!fired&&e1) B("emit_enter failed with %d",e1);
  for(k=0;k<np&&!oombad;k++){
    if(q->tight&&q->tightk==k&&!e1){ /* the current fragments are (nearly) full and there is no more memory */ uw rest=er(er(2)?30:6)*sizeof(uw); if(q->tight&1) c->buf->used_size=FRAGMAX-(rest<FRAGMAX?rest:0); if(q->tight&2) c->abuf->used_size=((sizeof(uw)==4&&0)?0:FRAGMAX)-(er(3)?0:rest); fail_from=req; }
    if(q->allocm&&er(4)==0){ void*m; sw sz=(sw)er(160)-8; e0=sljit_get_compiler_error(c); f0=fired; track=1; m=sljit_alloc_memory(c,(s32)sz); track=0; e1=sljit_get_compiler_error(c); if(m&&(e0||fired!=f0)) B("alloc_memory succeeded after an error"); if(!m&&!e0&&e1==0&&sz>0&&sz<=(WS==8?128:64)) B("alloc_memory of %ld failed without error",(long)sz); if(m&&(sz<=0||sz>(WS==8?128:64))) B("alloc_memory accepted %ld",(long)sz); if(m){ if((uw)m&(WS-1)) B("alloc_memory is not aligned: %p",m); memset(m,0xe7,(size_t)sz); } if(fired!=f0&&e1!=SLJIT_ERR_ALLOC_FAILED) B("alloc_memory: allocation failed, error is %d",e1); }
    e0=sljit_get_compiler_error(c); size0=c->size; f0=fired; track=1; emit_one(&c,k); track=0; e1=sljit_get_compiler_error(c); hard=fired!=f0;
    if(e0){ n_oom_after++; if(e1!=e0) B("error changed from %d to %d by instruction %d kind %d",e0,e1,k,prog[k].kind); if(prog[k].kind!=K_SETFLAGS&&!(prog[k].kind==K_PAD&&!prog[k].x)&&emit_raw!=e0&&emit_raw!=-999) B("call for instruction %d kind %d returned %d after error %d",k,prog[k].kind,(int)emit_raw,e0); if(c->size!=size0) B("instruction %d kind %d emitted code after the error: size %lu -> %lu",k,prog[k].kind,(long)size0,(long)c->size); if(hard) B("instruction %d kind %d requested memory after the error",k,prog[k].kind); }
    else if(hard){ form(0x100+(u64)prog[k].kind*0x1000+(u64)(prog[k].op&0xff)*0x100000); if(e1!=SLJIT_ERR_ALLOC_FAILED) B("allocation failed in instruction %d kind %d, error is %d",k,prog[k].kind,e1); if(emit_raw!=e1&&emit_raw!=-999) B("allocation failed in instruction %d kind %d op %x, the call returned %d",k,prog[k].kind,(unsigned)prog[k].op,(int)emit_raw); }
    else if(e1||(emit_raw&&prog[k].kind!=K_SETFLAGS)) B("instruction %d kind %d failed with %d error %d although memory was available",k,prog[k].kind,(int)emit_raw,e1);
    if(q->serk==k&&!q->tight){ uw sz=~(uw)0,*b; e0=e1; f0=fired; track=1; b=sljit_serialize_compiler(c,0,&sz); track=0; e1=sljit_get_compiler_error(c);
      if(b&&(e0||fired!=f0)) B("serialize succeeded, error %d",e0); if(!b&&!e0&&fired==f0) B("serialize failed"); if(!b&&sz!=0) B("serialize failed and set the size to %lu",(long)sz); if(!b&&fired!=f0) form(2); if(e0&&e1!=e0) B("serialize changed the error");
      if(b){ f0=fired; track=1; c2=sljit_deserialize_compiler(b,sz,0,NULL); if(c2&&fired!=f0) B("deserialize succeeded although an allocation failed"); if(!c2&&fired==f0) B("deserialize failed"); if(!c2) form(3+(u64)(req<30?req:30)*16); if(c2) sljit_free_compiler(c2); free(b); track=0; } }
  }
  for(k=0;k<np;k++) if(prog[k].lab>=0&&prog[k].kind!=K_LABEL&&prog[k].kind!=K_ROBUF&&prog[k].kind!=K_CALL&&prog[k].kind!=K_IJUMP) sljit_set_label(J[k],L[prog[k].lab]);
  if(oombad){ track=1; sljit_free_compiler(c); track=0; goto ends; }
  e0=sljit_get_compiler_error(c); f0=fired; fs=fired_soft; track=1;
  if(q->codebuf){ gb.buffer=q->cb; gb.size=q->codebuf==2?smallsize:cbsize; gb.executable_offset=0; code=sljit_generate_code(c,SLJIT_GENERATE_CODE_BUFFER,&gb); } else code=sljit_generate_code(c,0,NULL);
  track=0; e1=sljit_get_compiler_error(c); (void)fs;
  if(e0){ if(code) B("generate_code returned %p after error %d",code,e0); if(e1!=e0) B("generate_code changed the error %d to %d",e0,e1); }
  else if(fired!=f0){ n_oom_gen++; form(4+(u64)e1*16); if(code) B("generate_code succeeded although an allocation failed"); if(e1!=SLJIT_ERR_ALLOC_FAILED&&e1!=SLJIT_ERR_EX_ALLOC_FAILED) B("allocation failed in generate_code, error is %d",e1); }
  else if(q->codebuf==2){ form(5); if(code) B("generate_code accepted a too small buffer: %lu bytes, %lu generated",(long)smallsize,(long)sljit_get_generated_code_size(c)); if(e1!=SLJIT_ERR_EX_ALLOC_FAILED) B("too small code buffer: error is %d",e1); }
  else { if(!code) B("generate_code failed with error %d although memory was available",e1); else if(e1!=SLJIT_ERR_COMPILED) B("error after generate_code is %d",e1); }
  csize=sljit_get_generated_code_size(c);
  /* calls after the end */
  track=1; e0=e1; size0=c->size; r=sljit_emit_op0(c,SLJIT_NOP); if(r!=e0) B("emit after the end returned %d, error %d",(int)r,e0); if(sljit_emit_label(c)) B("label after the end"); if(sljit_emit_jump(c,SLJIT_JUMP)) B("jump after the end"); { void*k2=sljit_generate_code(c,0,NULL); if(k2) B("second generate_code returned %p",k2); } if(sljit_get_compiler_error(c)!=e0) B("error changed after the end"); if(c->size!=size0) B("code emitted after the end");
  sljit_free_compiler(c);
  if(code&&!q->codebuf) sljit_free_code(code,NULL);
  track=0;
ends:
  n_oom_faults+=fired+fired_soft; fail_from=fi;
  return csize;
}
static void unused(void){ long k; int was=track; (void)k; track=1;
#if (defined SLJIT_EXECUTABLE_ALLOCATOR && SLJIT_EXECUTABLE_ALLOCATOR)
  sljit_free_unused_memory_exec();
#endif
  track=was; }
static void ledger(const char*w){ unused(); if(n_live) B("%s: %ld blocks leaked, first of %lu bytes",w,n_live,(long)live[0].n); if(n_maps) B("%s: %ld mappings leaked, first %p+%lx",w,n_maps,(void*)maps[0].p,(long)maps[0].n); while(n_live) __real_free(live[--n_live].p); n_maps=0; }
static int stackf(u64 s)
{
  struct sljit_stack*st; long n,i; int pass; static const uw szs[]={1,100,4096,5000,65536,1<<20}; uw a,b; es=s|1; a=szs[er(6)]; b=szs[er(6)]; if(a>b){ uw t=a; a=b; b=t; }
  for(i=-1,n=0;i<=n;i++) for(pass=0;pass<2;pass++){ fail_at=pass?-1:i; fail_from=pass?i:-1; if(i<0) fail_from=-1; req=0; fired=0; track=1; st=sljit_allocate_stack(a,b,NULL); track=0; if(fired&&st) B("allocate_stack(%lu,%lu) succeeded although an allocation failed",(long)a,(long)b); if(!fired&&!st) B("allocate_stack(%lu,%lu) failed",(long)a,(long)b);
    if(st){ if((uw)(st->end-st->start)<a||(uw)(st->end-st->min_start)<b||st->start<st->min_start) B("stack bounds"); memset(st->start,1,a); track=1; fail_at=-1; sljit_free_stack(st,NULL); track=0; } else form(6+(u64)i*16); if(i<0) n=req-1; n_oom_faults+=fired; n_oom_scen++; ledger("stack"); if(oombad) return 1; if(i<0) break; }
  return 0;
}
/* deserialization of a compiler with many records, every memory request failing in turn */
static int serf(u64 s)
{
  struct sljit_compiler*c,*c2; struct sljit_label*l[64]; struct sljit_jump*j; int nl=0,k,pass,ops; long n,i; uw sz=0,*b; void*code; es=s|1; ops=er(4)?150+(int)er(500):(int)er(40);
  fail_at=fail_from=-1; req=0; fired=0; track=1; c=sljit_create_compiler(NULL); sljit_emit_enter(c,0,SLJIT_ARGS1(W,W),3|SLJIT_ENTER_FLOAT(2),2,16);
  for(k=0;k<ops;k++) switch(er(9)){
    case 0: case 1: if(nl<64) l[nl++]=sljit_emit_label(c); else l[er(64)]=sljit_emit_label(c); break;
    case 2: { static const s32 al[]={SLJIT_LABEL_ALIGN_2,SLJIT_LABEL_ALIGN_4,SLJIT_LABEL_ALIGN_8,SLJIT_LABEL_ALIGN_16}; struct sljit_label*x=sljit_emit_aligned_label(c,al[er(4)],NULL); if(x){ if(nl<64) l[nl++]=x; else l[er(64)]=x; } break; }
    case 3: case 4: j=sljit_emit_jump(c,SLJIT_JUMP|(er(3)?0:SLJIT_REWRITABLE_JUMP)); if(j){ if(nl&&er(2)) sljit_set_label(j,l[er((u32)nl)]); else if(er(3)){ struct sljit_label*x=sljit_emit_label(c); sljit_set_label(j,x); } else sljit_set_target(j,0x1000); } break;
    case 5: j=sljit_emit_op_addr(c,SLJIT_MOV_ADDR,SLJIT_R0,0); if(j){ if(nl) sljit_set_label(j,l[er((u32)nl)]); else sljit_set_target(j,0x1000); } break;
    case 6: case 7: sljit_emit_const(c,SLJIT_MOV,SLJIT_R0,0,(sw)er(1000)); break;
    default: sljit_emit_op2(c,SLJIT_ADD,SLJIT_R1,0,SLJIT_R0,0,SLJIT_IMM,(sw)(er(2)?er(100):er(0x7fffffff))); }
  sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0);
  if(sljit_get_compiler_error(c)) B("many records: error %d",(int)sljit_get_compiler_error(c));
  b=sljit_serialize_compiler(c,0,&sz); sljit_free_compiler(c); if(!b){ B("many records: serialize failed"); track=0; return 1; }
  for(i=-1,n=0;i<n&&!oombad;i++) for(pass=0;pass<2&&!oombad;pass++){ req=0; fired=0; fail_at=i<0||pass?-1:i; fail_from=i<0||!pass?-1:i;
    c2=sljit_deserialize_compiler(b,sz,0,NULL); if(c2&&fired) B("deserialize succeeded although allocation %ld failed",i); if(!c2&&!fired) B("deserialize failed"); if(i<0) n=req; n_oom_faults+=fired; n_oom_scen++; fail_at=fail_from=-1; form(7+(u64)(i<60?i+1:60)*16+(u64)pass*8);
    if(c2){ if(i<0&&!pass){ code=sljit_generate_code(c2,0,NULL); if(!code) B("generate_code of the restored compiler failed with %d",(int)sljit_get_compiler_error(c2)); else sljit_free_code(code,NULL); } sljit_free_compiler(c2); }
    unused(); if(n_live!=1||n_maps){ B("deserialize with allocation %ld of %ld failing: %ld blocks and %ld mappings leaked",i,n,(long)n_live-1,(long)n_maps); break; } }
  free(b); track=0; fail_at=fail_from=-1; ledger("many records"); return oombad;
}
/* returns 0 ok, 1 violation with *d set */
extern int cmode_off;
int oom_test(u64 seed,s32 scr,s32 sav,u8*cb,uw cbcap,const char**d)
{
  struct scen q; long n,i; uw full; int fd0,pass,t; oombad=0; oomdet[0]=0; *d=oomdet; track=0; sljit_free_unused_memory_exec(); memset(&q,0,sizeof q); q.seed=seed; q.scr=scr; q.sav=sav; q.cb=cb; fd0=nfds(); es=seed|1; fail_at=fail_from=-1;
  q.serk=er(3)?(int)er((u32)np):-1; q.allocm=er(3)==0; t=(int)er(3); n_live=n_maps=0;
  full=scenario(&q); n=req; ledger("no fault"); if(oombad) goto bad; cbsize=cbcap; smallsize=full>64?full/2:0;
  for(pass=0;pass<2;pass++) for(i=0;i<n;i++){ if(n>60&&er((u32)(n/30+1))) continue; fail_at=pass?-1:i; fail_from=pass?i:-1; q.codebuf=t==1&&!cmode_off?1:0; scenario(&q); ledger(pass?"all requests fail":"one request fails"); if(oombad){ snprintf(oomdet+strlen(oomdet),sizeof oomdet-strlen(oomdet)," [request %ld of %ld%s]",i,n,pass?" and later":""); goto bad; } }
  fail_at=fail_from=-1;
  for(i=0;i<TIGHTS;i++){ q.tight=1+(int)er(3); q.tightk=(int)er((u32)np); q.codebuf=0; fail_at=fail_from=-1; scenario(&q); ledger("full fragment"); if(oombad){ snprintf(oomdet+strlen(oomdet),sizeof oomdet-strlen(oomdet)," [fragments %d full at instruction %d]",q.tight,q.tightk); goto bad; } }
  q.tight=0; fail_at=fail_from=-1; q.codebuf=cmode_off?0:2; scenario(&q); ledger("small buffer"); q.codebuf=0; if(oombad) goto bad;
  serf(seed^78); fail_at=fail_from=-1; if(oombad) goto bad;
  stackf(seed^77); fail_at=fail_from=-1; if(oombad) goto bad;
  { uw again=scenario(&q); ledger("after faults"); if(again!=full) B("the program compiles to %lu bytes after the faults, %lu before",(long)again,(long)full); }
  if(nfds()!=fd0) B("file descriptors: %d before, %d after",fd0,nfds());
bad:
  track=0; fail_at=fail_from=-1; return oombad!=0;
}

void oom_stop(void){ track=0; }
