/* C14 / C15: histories of executable allocations and stack resizes under a shadow of live blocks and mappings.
   Every mmap / munmap / mprotect / madvise made by the library is seen through --wrap. */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <stdarg.h>
#include <errno.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/time.h>
typedef sljit_uw uw; typedef uint64_t u64; typedef uint8_t u8;
#if (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
#define WX 1
#else
#define WX 0
#endif
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
#define PROT 1
#else
#define PROT 0
#endif
#define PG 4096u
static u64 sm(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static __thread u64 rs; static u64 rnd(void){ u64 x=rs; x^=x>>12; x^=x<<25; x^=x>>27; rs=x; return x*0x2545F4914F6CDD1DULL; }
static unsigned rn(unsigned n){ return n?(unsigned)((rnd()>>33)%n):0; }
static char det[2000]; static const char*fkind; static const char*mode="mixed"; static volatile u64 curseed; static pthread_mutex_t fm=PTHREAD_MUTEX_INITIALIZER; static int o_print;
static void fail(const char*k,const char*f,...){ va_list a; pthread_mutex_lock(&fm); if(!fkind){ fkind=k; va_start(a,f); vsnprintf(det,sizeof det,f,a); va_end(a); } pthread_mutex_unlock(&fm); }
/* distinct abstract states */
#define HS 65536
static u64 hset[HS]; static unsigned hn; static void form(u64 k){ unsigned h; if(!k) k=1; pthread_mutex_lock(&fm); h=(unsigned)(sm(k)&(HS-1)); while(hset[h]&&hset[h]!=k) h=(h+1)&(HS-1); if(!hset[h]&&hn<HS/2){ hset[h]=k; hn++; } pthread_mutex_unlock(&fm); }
/* ---- shadow of mappings and blocks ---- */
typedef struct { uw a,n; int prot; } mp; static mp maps_[4096]; static int nmaps;
typedef struct { int used; uw w,x,n; u64 tag; int code; long id; int ready; } blk; /* w: writable address, x: executable address */
#define NBLK 6000
static blk B[NBLK]; static pthread_mutex_t sh=PTHREAD_MUTEX_INITIALIZER;
static __thread int inlib; static __thread long faultin; static __thread long nreq; static __thread int didmap,faulted; static long n_faults,n_maps,n_unmaps; static uw mapped,maxmapped;
static long s_n[16]; enum { S_ALLOC,S_FREE,S_VER,S_EXEC,S_UNUSED,S_REUSE,S_MAPS,S_RESIZE,S_REJ,S_BYTES,S_NULL,S_MADV,S_STK,S_THR,S_CONST };
#define CNT(i) __atomic_fetch_add(&s_n[i],1,__ATOMIC_RELAXED)
void*__real_mmap(void*,size_t,int,int,int,off_t); int __real_munmap(void*,size_t); int __real_mprotect(void*,size_t,int); int __real_madvise(void*,size_t,int); int __real_ftruncate(int,off_t); int __real_memfd_create(const char*,unsigned); void*__real_malloc(size_t); void __real_free(void*); int __real_posix_madvise(void*,size_t,int);
static int shouldfail(void){ if(!inlib) return 0; nreq++; if(faultin>0&&--faultin==0){ __atomic_fetch_add(&n_faults,1,__ATOMIC_RELAXED); faulted=1; return 1; } return 0; }
static void *did_mmap(void*r,size_t n,int prot)
{
  if(r==MAP_FAILED||!inlib) return r;
  n=(n+PG-1)&~(size_t)(PG-1); pthread_mutex_lock(&sh); if(nmaps<4096){ maps_[nmaps].a=(uw)r; maps_[nmaps].n=n; maps_[nmaps++].prot=prot; } mapped+=n; if(mapped>maxmapped) maxmapped=mapped; n_maps++; pthread_mutex_unlock(&sh); didmap++;
  if((PROT||WX)&&(prot&PROT_WRITE)&&(prot&PROT_EXEC)) fail("wx","mmap with write and execute permission");
  return r;
}
static long nblocks_in(uw a,uw n){ int k; long c=0; for(k=0;k<NBLK;k++) if(B[k].used&&((B[k].w<a+n&&a<B[k].w+B[k].n)||(B[k].x<a+n&&a<B[k].x+B[k].n))) c++; return c; }
void*__wrap_mmap(void*p,size_t n,int pr,int fl,int fd,off_t o){ if(shouldfail()){ errno=ENOMEM; return MAP_FAILED; } return did_mmap(__real_mmap(p,n,pr,fl,fd,o),n,pr); }
void*__wrap_mmap64(void*p,size_t n,int pr,int fl,int fd,off_t o){ return __wrap_mmap(p,n,pr,fl,fd,o); }
int __wrap_munmap(void*p,size_t n)
{
  int k; uw a=(uw)p; if(!inlib) return __real_munmap(p,n);
  n=(n+PG-1)&~(size_t)(PG-1); pthread_mutex_lock(&sh); n_unmaps++;
  if(nblocks_in(a,n)) fail("unmaplive","munmap of %lx size %lx which contains a live block",(long)a,(long)n);
  for(k=0;k<nmaps;k++) if(maps_[k].a==a&&maps_[k].n==n) break;
  if(k==nmaps){ int part=0; for(k=0;k<nmaps;k++) if(maps_[k].a<a+n&&a<maps_[k].a+maps_[k].n) part=1; fail("unmap",part?"munmap of a part of a mapping (%lx size %lx)":"munmap of memory that is not mapped by the allocator (%lx size %lx)",(long)a,(long)n); }
  else { mapped-=n; maps_[k]=maps_[--nmaps]; }
  pthread_mutex_unlock(&sh); return __real_munmap(p,n);
}
int __wrap_mprotect(void*p,size_t n,int pr){ if(inlib){ int k,ok=0; pthread_mutex_lock(&sh); for(k=0;k<nmaps;k++) if(maps_[k].a<=(uw)p&&(uw)p+n<=maps_[k].a+((maps_[k].n+PG-1)&~(uw)(PG-1))){ ok=1; maps_[k].prot=pr; } pthread_mutex_unlock(&sh); if(!ok) fail("mprotect","mprotect outside of the mappings of the allocator: %lx size %lx",(long)(uw)p,(long)n); if((pr&PROT_WRITE)&&(pr&PROT_EXEC)) fail("wx","mprotect with write and execute permission"); } return __real_mprotect(p,n,pr); }
static uw ret_a,ret_n; static int mad_bad; /* retained part of the stack */
static void madv(void*p,size_t n){ uw a=(uw)p; if(!inlib) return; CNT(S_MADV); if(ret_n&&a<ret_a+ret_n&&ret_a<a+n){ fail("dropped","the library gave up pages %lx..%lx of the retained stack area %lx..%lx",(long)a,(long)(a+n),(long)ret_a,(long)(ret_a+ret_n)); mad_bad=1; } __real_madvise(p,n,MADV_DONTNEED); }
int __wrap_madvise(void*p,size_t n,int ad){ if(inlib&&(ad==MADV_DONTNEED||ad==MADV_FREE)){ madv(p,n); return 0; } return __real_madvise(p,n,ad); }
int __wrap_posix_madvise(void*p,size_t n,int ad){ if(inlib&&ad==POSIX_MADV_DONTNEED){ madv(p,n); return 0; } return __real_posix_madvise(p,n,ad); }
int __wrap_ftruncate(int fd,off_t o){ if(shouldfail()){ errno=ENOSPC; return -1; } return __real_ftruncate(fd,o); }
int __wrap_ftruncate64(int fd,off_t o){ return __wrap_ftruncate(fd,o); }
static long liveheap;
void*__wrap_malloc(size_t n){ void*r; if(shouldfail()){ errno=ENOMEM; return 0; } r=__real_malloc(n); if(r&&inlib) __atomic_fetch_add(&liveheap,1,__ATOMIC_RELAXED); return r; }
void __wrap_free(void*p){ if(p&&inlib) __atomic_fetch_sub(&liveheap,1,__ATOMIC_RELAXED); __real_free(p); }
#define LIB(x) do{ inlib=1; x; inlib=0; }while(0)
static int inmaps(uw a,uw n){ int k; for(k=0;k<nmaps;k++) if(maps_[k].a<=a&&a+n<=maps_[k].a+maps_[k].n) return 1; return 0; }
static void fillp(u8*p,uw n,u64 tag){ uw k; u64 s=sm(tag); for(k=0;k<n;k++){ if(!(k&7)) s=s*6364136223846793005ULL+1442695040888963407ULL; p[k]=(u8)(s>>(8*(k&7))); } }
static int chkp(const u8*p,uw n,u64 tag){ uw k; u64 s=sm(tag); for(k=0;k<n;k++){ if(!(k&7)) s=s*6364136223846793005ULL+1442695040888963407ULL; if(p[k]!=(u8)(s>>(8*(k&7)))) return (int)k+1; } return 0; }
static int addblk(uw w,uw x,uw n,u64 tag,int code,const char*what)
{ int k,f=-1; pthread_mutex_lock(&sh);
  for(k=0;k<NBLK;k++){ if(!B[k].used){ if(f<0) f=k; continue; } if((B[k].w<w+n&&w<B[k].w+B[k].n)||(B[k].x<x+n&&x<B[k].x+B[k].n)) fail("overlap","%s returned %lx size %lx which overlaps the live block %lx size %lx",what,(long)w,(long)n,(long)B[k].w,(long)B[k].n); }
  if(f>=0){ B[f].used=1; B[f].w=w; B[f].x=x; B[f].n=n; B[f].tag=tag; B[f].code=code; B[f].ready=0; }
  if(!inmaps(w,n)||!inmaps(x,n)) fail("bounds","%s returned %lx (executable %lx) size %lx which is not inside the memory mapped by the allocator",what,(long)w,(long)x,(long)n);
  pthread_mutex_unlock(&sh); return f; }
typedef sljit_sw (SLJIT_FUNC *fn0)(void);
static void verify(blk*b)
{ int e; CNT(S_VER); __atomic_fetch_add(&s_n[S_BYTES],(long)b->n,__ATOMIC_RELAXED);
  if(b->code){ fn0 f; uw v; 
    e=chkp((u8*)b->x+0,0,b->tag); (void)e; f=(fn0)(b->code==2?b->id:0); if(f){ v=(uw)f(); CNT(S_EXEC); if(v!=(uw)b->tag) fail("exec","the function in block %lx returned %lx instead of %lx",(long)b->x,(long)v,(long)b->tag); } return; }
  e=chkp((u8*)b->w,b->n,b->tag); if(e){ fail("content","byte %d of block %lx size %lx changed",e-1,(long)b->w,(long)b->n); return; }
  if(PROT){ e=chkp((u8*)b->x,b->n,b->tag); if(e) fail("content","byte %d of block %lx differs in the executable view",e-1,(long)b->w); } }
/* is there a gap of at least n bytes in a chunk? (conservative: block headers and rounding may take 256 bytes) */
static int cmpb(const void*a,const void*b){ uw x=*(const uw*)a,y=*(const uw*)b; return x<y?-1:x>y; }
static uw biggest_gap(void)
{ static uw st[2*NBLK]; int k,j,n; uw best=0; pthread_mutex_lock(&sh); for(k=0;k<nmaps;k++){ uw p=maps_[k].a,e=maps_[k].a+maps_[k].n; if(!(maps_[k].prot&PROT_WRITE)) continue; n=0; for(j=0;j<NBLK;j++) if(B[j].used&&B[j].w>=p&&B[j].w<e){ st[2*n]=B[j].w; st[2*n+1]=B[j].w+B[j].n; n++; }
    qsort(st,(size_t)n,2*sizeof(uw),cmpb); for(j=0;j<n;j++){ if(st[2*j]>p&&st[2*j]-p>best) best=st[2*j]-p; p=st[2*j+1]; } if(e>p&&e-p>best) best=e-p; }
  pthread_mutex_unlock(&sh); return best; }
static int threads,o_faults;
static uw pick_size(void)
{ const char*m=mode; if(!strcmp(m,"mixed")) m=rn(3)?"small":"chunk";
  if(!strcmp(m,"small")) switch(rn(6)){ case 0: return 1+rn(16); case 1: return 40+rn(40); case 2: return 1+rn(8); case 3: return 8*(1+rn(100)); default: return 1+rn(3000); }
  switch(rn(10)){ case 0: return 65536*(1+rn(3))-rn(120); case 1: return 65536-16-16-rn(100); case 2: return 32768-rn(60); case 3: return 16384-16-rn(9); case 4: return 65536*(1+rn(4))+rn(200); case 5: return 1+rn(300000); default: return 1+rn(20000); } }
static const char*const szname(uw n){ return ""; }
static unsigned szc(uw n){ unsigned c=0; while(n){ c++; n>>=1; } return c; }
/* state around an address: is the neighbouring space free? */
static unsigned surround(uw a,uw n){ int k; unsigned f=3; uw lo=0; for(k=0;k<NBLK;k++) if(B[k].used){ if(B[k].w+B[k].n<=a&&a-(B[k].w+B[k].n)<128) f&=~1u; if(B[k].w>=a+n&&B[k].w-(a+n)<128) f&=~2u; } for(k=0;k<nmaps;k++) if(maps_[k].a<=a&&a<maps_[k].a+maps_[k].n) lo=nblocks_in(maps_[k].a,maps_[k].n); return f|(lo==0?4u:lo==1?8u:lo<4?12u:0); }
static int do_alloc(uw size)
{ u8*p=0; uw gap=0; int f,mono=threads<=1; u64 tag; uw off=0; (void)szname;
  didmap=0; faulted=0; nreq=0; if(mono&&!WX) gap=biggest_gap(); faultin=o_faults&&!rn(4)?1+(long)rn(4):0;
  LIB(p=(u8*)SLJIT_BUILTIN_MALLOC_EXEC(size,0)); faultin=0; CNT(S_ALLOC);
  if(o_print) printf("alloc %lu -> %p\n",(long)size,(void*)p);
  if(!p){ CNT(S_NULL); if(!faulted){ fail("null","allocation of %lu bytes failed",(long)size); } form(sm(3000+szc(size)+(u64)nreq*97)); return -1; }
  if((uw)p&(sizeof(sljit_uw)-1)) fail("align","allocation of %lu bytes returned the unaligned address %lx",(long)size,(long)(uw)p);
#if PROT
  { struct bh { uw a,b; sljit_sw o; }; (void)sizeof(struct bh); off=(uw)sljit_exec_offset((void*)p); /* the header is readable through both views */ }
#endif
  tag=rnd(); f=addblk((uw)p,(uw)p+off,size,tag,0,"malloc_exec"); if(fkind) return -1;
  if(f<0){ LIB(SLJIT_BUILTIN_FREE_EXEC(p+off,0)); return -1; }
  if(mono&&!WX&&didmap&&gap>=size+256) fail("reuse","allocation of %lu bytes mapped new memory while %lu contiguous bytes were free",(long)size,(long)gap);
  if(mono&&!WX&&!didmap) CNT(S_REUSE);
  fillp(p,size,tag); pthread_mutex_lock(&sh); { unsigned s=surround((uw)p,size); B[f].ready=1; pthread_mutex_unlock(&sh); form(sm(1000+szc(size)*64+s*4+(unsigned)(didmap?1:0))); }
  return f; }
static const uw codelens[]={0,1,3,7,20,60,61,62,200,900,4000,9000,16000};
static int do_code(void)
{ struct sljit_compiler*c=sljit_create_compiler(0); void*code=0; uw size,tag=(uw)rnd(); sljit_sw off; int f; uw n=codelens[rn(sizeof codelens/sizeof codelens[0])]+rn(8),k; struct sljit_const*cn; uw ca=0; int useconst=(int)rn(2);
  if(!c) return -1;
  sljit_emit_enter(c,0,SLJIT_ARGS0(W),2,0,0); for(k=0;k<n;k++) sljit_emit_op2(c,SLJIT_ADD,SLJIT_R1,0,SLJIT_R1,0,SLJIT_IMM,(sljit_sw)(k*7919));
  cn=sljit_emit_const(c,SLJIT_MOV,SLJIT_R0,0,useconst?0:(sljit_sw)tag); sljit_emit_return(c,SLJIT_MOV,SLJIT_R0,0);
  faulted=0; faultin=o_faults&&!rn(4)?1+(long)rn(4):0; didmap=0; LIB(code=sljit_generate_code(c,0,0)); faultin=0; CNT(S_ALLOC);
  if(!code){ if(!faulted) fail("null","generate_code failed: %d",(int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return -1; }
  size=sljit_get_generated_code_size(c); off=sljit_get_executable_offset(c); ca=sljit_get_const_addr(cn); sljit_free_compiler(c);
  { uw x=SLJIT_FUNC_UADDR(code)&~(uw)1; f=addblk(x-(uw)off,x,size,tag,2,"generate_code"); }
  if(f<0||fkind) return -1; B[f].id=(long)(uw)code; 
  if(useconst){ inlib=1; sljit_set_const(ca,SLJIT_MOV,(sljit_sw)tag,off); inlib=0; CNT(S_CONST); }
  form(sm(9000+szc(size)*8+(unsigned)(didmap?1:0)+(unsigned)useconst*2)); verify(&B[f]); pthread_mutex_lock(&sh); B[f].ready=1; pthread_mutex_unlock(&sh); return f; }
static blk takeblk(int k){ blk b=B[k]; B[k].used=0; return b; }
static void do_free(int k)
{ blk b; unsigned s; pthread_mutex_lock(&sh); if(!B[k].used||!B[k].ready){ pthread_mutex_unlock(&sh); return; } b=takeblk(k); s=surround(b.w,b.n); pthread_mutex_unlock(&sh);
  verify(&b); if(o_print) printf("free %lx size %lu\n",(long)b.w,(long)b.n); { long u0=n_unmaps; if(b.code) LIB(sljit_free_code((void*)b.id,0)); else LIB(SLJIT_BUILTIN_FREE_EXEC((void*)b.x,0)); CNT(S_FREE); form(sm(5000+szc(b.n)*64+s*4+(unsigned)(n_unmaps!=u0)+(b.code?2:0))); } }
static void check_maps(void)
{ FILE*f=fopen("/proc/self/maps","r"); char l[600]; CNT(S_MAPS); if(!f) return; static unsigned char seen[NBLK][2]; memset(seen,0,sizeof seen);
  while(fgets(l,sizeof l,f)){ unsigned long a,e; char p[8]; int k; if(sscanf(l,"%lx-%lx %7s",&a,&e,p)!=3) continue; 
    for(k=0;k<NBLK;k++) if(B[k].used){ blk*b=&B[k]; if(b->w<e&&a<b->w+b->n){ seen[k][0]|=1; if((PROT||WX)&&p[1]=='w'&&p[2]=='x') fail("wx","block %lx is writable and executable (%s)",(long)b->w,p); if(WX&&b->code&&(p[1]=='w'||p[2]!='x')) fail("wx","generated code %lx has permissions %s",(long)b->w,p); if(!WX&&p[1]!='w') fail("perm","block %lx has permissions %s",(long)b->w,p); }
      if(b->x<e&&a<b->x+b->n){ seen[k][1]|=1; if(!WX&&p[2]!='x') fail("perm","the executable view of block %lx has permissions %s",(long)b->w,p); if(PROT&&p[1]=='w') fail("wx","the executable view of block %lx is writable",(long)b->w); } } }
  fclose(f); { int k; for(k=0;k<NBLK;k++) if(B[k].used&&(!seen[k][0]||!seen[k][1])) fail("perm","block %lx is not mapped",(long)B[k].w); } }
static int nfds(void){ int n=0; DIR*d=opendir("/proc/self/fd"); if(!d) return 0; while(readdir(d)) n++; closedir(d); return n; }
static void unused(void)
{ int k; LIB(sljit_free_unused_memory_exec()); CNT(S_UNUSED); if(threads>1) return;
  pthread_mutex_lock(&sh); for(k=0;k<nmaps;k++) if(!nblocks_in(maps_[k].a,maps_[k].n)) { fail("unused","mapping %lx size %lx contains no live block after sljit_free_unused_memory_exec",(long)maps_[k].a,(long)maps_[k].n); break; } pthread_mutex_unlock(&sh); form(sm(7000+(u64)(nmaps>8?8:nmaps))); }
static void history(int steps,int fromothers,int lo,int hi)
{ int live=0,k,phase=0,j; int own[NBLK]; (void)fromothers; memset(own,0,sizeof own);
  for(j=0;j<steps&&!fkind;j++){ int target; if(!rn(60)) phase=(int)rn(5); live=0; pthread_mutex_lock(&sh); for(k=lo;k<hi;k++) live+=B[k].used&&B[k].ready; pthread_mutex_unlock(&sh);
    if((phase==0&&rn(4))||(phase==1&&rn(2))||(phase==2&&!rn(4))||(phase==3&&rn(3)&&live<40)||live==0){ if(live<600){ if(!strcmp(mode,"code")?rn(4):!rn(12)) do_code(); else do_alloc(pick_size()); } if(fkind) return; }
    else { int pick=0,best=-1; unsigned how=rn(5); uw bv=0; pthread_mutex_lock(&sh); pick=(int)rn((unsigned)(live?live:1)); 
      for(k=lo;k<hi;k++) if(B[k].used&&B[k].ready){ if(how<2){ if(pick--==0){ best=k; break; } } else if(how==2?(best<0||B[k].w<bv):how==3?(best<0||B[k].w>bv):(best<0)){ best=k; bv=B[k].w; } }
      target=best; pthread_mutex_unlock(&sh); if(target>=0) do_free(target); }
    if(threads<=1){ if(!rn(40)&&!fkind){ int n=0; for(k=0;k<NBLK&&!fkind;k++) if(B[k].used&&!(rn(3))&&n++<50) verify(&B[k]); } if(!rn(150)&&!fkind) check_maps(); }
    if(!rn(120)&&!fkind) unused(); if(phase==4&&!rn(3)){ for(k=lo;k<hi&&!fkind;k++) if(B[k].used) do_free(k); phase=0; if(threads<=1&&!WX&&!fkind&&mapped>0&&!rn(2)){ uw g=biggest_gap(); if(g>600) do_alloc(g-300-rn(200)); } } } }
static void drain(void){ int k,order=(int)rn(3); for(k=0;k<NBLK&&!fkind;k++){ int i=order==0?k:order==1?NBLK-1-k:(int)((unsigned)k*2477u%NBLK); if(B[i].used) do_free(i); } for(k=0;k<NBLK&&!fkind;k++) if(B[k].used) do_free(k); }
/* independent threads without any shared monitor, so that a race detector sees only the locks of the library */
static int o_indep;
static void *thri(void*a)
{ enum { N=24 }; struct { u8*w,*x; uw n; u64 tag; void*code; } b[N]; int j,k; uw q; u8*p; rs=sm(curseed*64+(u64)(long)a)|1; memset(b,0,sizeof b); CNT(S_THR);
  for(j=0;j<400&&!__atomic_load_n(&fkind,__ATOMIC_RELAXED);j++){ k=(int)rn(N);
    if(!b[k].n){ if(!rn(6)){ struct sljit_compiler*c=sljit_create_compiler(0); u64 t=(sljit_uw)rnd(); if(!c) continue; sljit_emit_enter(c,0,SLJIT_ARGS0(W),2,0,0); for(q=rn(300);q;q--) sljit_emit_op0(c,SLJIT_NOP); sljit_emit_return(c,SLJIT_MOV,SLJIT_IMM,(sljit_sw)t); b[k].code=sljit_generate_code(c,0,0); b[k].n=sljit_get_generated_code_size(c); b[k].tag=t; sljit_free_compiler(c); if(!b[k].code) fail("null","generate_code failed"); CNT(S_ALLOC); continue; }
      b[k].n=pick_size(); p=(u8*)SLJIT_BUILTIN_MALLOC_EXEC(b[k].n,0); CNT(S_ALLOC); if(!p){ fail("null","allocation of %lu bytes failed",(long)b[k].n); break; } b[k].w=b[k].x=p;
#if PROT
      b[k].x=p+sljit_exec_offset((void*)p);
#endif
      b[k].tag=rnd(); fillp(p,b[k].n,b[k].tag); }
    else { CNT(S_VER); if(b[k].code){ if(((fn0)(uw)b[k].code)()!=(sljit_sw)b[k].tag) fail("exec","wrong result of a generated function"); CNT(S_EXEC); if(rn(3)){ sljit_free_code(b[k].code,0); b[k].n=0; b[k].code=0; CNT(S_FREE); } }
      else { int e=chkp(b[k].w,b[k].n,b[k].tag); __atomic_fetch_add(&s_n[S_BYTES],(long)b[k].n,__ATOMIC_RELAXED); if(e) fail("content","byte %d of a block of %lu bytes changed",e-1,(long)b[k].n); if(rn(3)){ SLJIT_BUILTIN_FREE_EXEC(b[k].x,0); b[k].n=0; CNT(S_FREE); } } }
    if(!rn(60)){ sljit_free_unused_memory_exec(); CNT(S_UNUSED); } }
  for(k=0;k<N;k++) if(b[k].n){ if(b[k].code) sljit_free_code(b[k].code,0); else SLJIT_BUILTIN_FREE_EXEC(b[k].x,0); CNT(S_FREE); }
  return 0; }
static void *thr(void*a){ if(o_indep) return thri(a); long id=(long)a; rs=sm(curseed*64+(u64)id)|1; CNT(S_THR); history(300,1,0,NBLK); return 0; }
static void run_alloc(u64 seed)
{ int fd0,k; rs=sm(seed)|1; memset(B,0,sizeof B); fd0=nfds();
  if(threads>1){ pthread_t t[16]; for(k=0;k<threads;k++) pthread_create(&t[k],0,thr,(void*)(long)k); for(k=0;k<threads;k++) pthread_join(t[k],0); }
  else history(400+(int)rn(400),0,0,NBLK);
  if(o_indep){ sljit_free_unused_memory_exec(); return; }
  if(!fkind) drain(); if(!fkind){ unused(); if(mapped!=0||nmaps) fail("leak","%lu bytes remain mapped in %d mappings after everything was freed",(long)mapped,nmaps); if(nfds()!=fd0) fail("fdleak","%d file descriptors, %d at the start",nfds(),fd0); }
}
/* ---- requests which cannot be satisfied ---- */
static void run_huge(u64 seed)
{ uw k; u8*p=0; rs=sm(seed)|1; { uw v[]={(uw)-1,(uw)-2,(uw)-8,(uw)-9,(uw)-15,(uw)-16,(uw)-17,(uw)-23,(uw)-24,(uw)-25,(uw)-31,(uw)-32,(uw)-33,(uw)-40,(uw)-63,(uw)-64,(uw)-65,(uw)-4096,(uw)-65535,(uw)-65536,(uw)-65537,(uw)-65600,(uw)-131072,~(uw)0>>1,(~(uw)0>>1)+1,(~(uw)0>>1)-65536};
    for(k=0;k<sizeof v/sizeof*v;k++){ uw s=v[k]-(rn(4)?0:rn(30)); int keep=(int)rn(2); if(keep) do_alloc(100); LIB(p=(u8*)SLJIT_BUILTIN_MALLOC_EXEC(s,0)); CNT(S_REJ); form(sm(4000+k)); if(p){ if((uw)p+s<(uw)p||!inmaps((uw)p,s)){ fail("huge","a request of %lx bytes returned a smaller block",(long)s); return; } LIB(SLJIT_BUILTIN_FREE_EXEC(p,0)); } if(!rn(3)) drain(); if(fkind) return; } }
  drain(); unused(); if(mapped) fail("leak","%lu bytes remain mapped",(long)mapped); }
/* ---- stacks ---- */
typedef struct { struct sljit_stack*s; u8*shadow; u8*known; uw max; u8*base; } stk;
static void wr(stk*t,uw from,uw to){ uw k; u64 s=rnd(); for(k=from;k<to;k++){ if(!(k&7)) s=s*6364136223846793005ULL+1442695040888963407ULL; t->base[k]=t->shadow[k]=(u8)(s>>56); t->known[k]=1; } }
static void run_stack(u64 seed)
{ stk T[4]; int nt=0,j,k; long heap0; uw map0; rs=sm(seed)|1; heap0=liveheap; map0=mapped;
  for(j=0;j<60+(int)rn(120)&&!fkind;j++){
    if(nt<4&&(nt==0||!rn(12))){ uw mx,st; struct sljit_stack*s=0; stk*t; static const uw mm[]={1,8,4095,4096,4097,8192,12288,65536,65537,300000,1000000};
      mx=rn(2)?mm[rn(11)]:1+rn(400000); st=rn(3)?1+rn((unsigned)mx):rn(2)?mx:1; if(!rn(10)){ st=rn(2)?0:mx+1+rn(5000); LIB(s=sljit_allocate_stack(st,mx,0)); CNT(S_REJ); form(sm(11+(st==0))); if(s) fail("badstack","sljit_allocate_stack(%lu, %lu) succeeded",(long)st,(long)mx); continue; }
      if(!rn(40)){ static const uw hg[]={(uw)-1,(uw)-4095,(uw)-4096,(uw)-8192,~(uw)0>>1,(~(uw)0>>1)+1}; uw h=hg[rn(6)]; LIB(s=sljit_allocate_stack(st,h,0)); CNT(S_REJ); if(s){ if((uw)(s->end-s->min_start)<h) fail("hugestack","sljit_allocate_stack(%lu, %lx) returned an area of %lx bytes",(long)st,(long)h,(long)(s->end-s->min_start)); LIB(sljit_free_stack(s,0)); } form(sm(77)); continue; }
      faulted=0; faultin=o_faults&&!rn(3)?1+(long)rn(3):0; LIB(s=sljit_allocate_stack(st,mx,0)); faultin=0; CNT(S_STK);
      if(!s){ if(!faulted) fail("null","sljit_allocate_stack(%lu, %lu) failed",(long)st,(long)mx); form(sm(21)); continue; }
      if(faulted&&s) fail("nofail","a failed request was not reported");
      t=&T[nt++]; t->s=s; t->base=s->min_start; t->max=(uw)(s->end-s->min_start); t->shadow=calloc(1,t->max); t->known=calloc(1,t->max);
      if(t->max<mx) fail("size","maximum size %lu, requested %lu",(long)t->max,(long)mx); if(s->top!=s->end) fail("top","top is not at the end of a new stack"); if((uw)(s->end-s->start)!=st) fail("size","usable size %lu, requested %lu",(long)(s->end-s->start),(long)st);
      form(sm(30+szc(mx)*64+szc(st))); wr(t,(uw)(s->start-t->base),t->max); }
    else if(nt>1&&!rn(14)){ k=(int)rn((unsigned)nt); free(T[k].shadow); free(T[k].known); ret_n=0; LIB(sljit_free_stack(T[k].s,0)); T[k]=T[--nt]; form(sm(31)); }
    else { stk*t=&T[rn((unsigned)nt)]; struct sljit_stack*s=t->s; u8*old=s->start,*ns,*r=0,*end=s->end,*mn=s->min_start; int bad=0; uw o;
      switch(rn(9)){ case 0: ns=mn-1-rn(8000); break; case 1: ns=end+(rn(2)?0:rn(8000)); break; case 2: ns=mn; break; case 3: ns=end-1; break; case 4: { uw p=(uw)mn+(t->max>PG?(uw)rn((unsigned)(t->max/PG))*PG:0); ns=(u8*)(p+rn(3)-1); break; } case 5: ns=old+(int)rn(64)-32; break; default: ns=mn+rn((unsigned)t->max); }
      if(!rn(30)) ns=0; bad=ns<mn||ns>=end;
      { u8*keep=bad?old:ns>old?ns:old; ret_a=(uw)keep; ret_n=(uw)(end-keep); }
      LIB(r=sljit_stack_resize(s,ns)); ret_n=0; CNT(S_RESIZE); if(bad) CNT(S_REJ); form(sm(100+(unsigned)bad*50+(ns>old?1:ns<old?2:0)+4*(((uw)ns/PG!=(uw)old/PG)?1u:0)+8*(((uw)ns%PG)==0)+(u64)szc((uw)(ns>old?ns-old:old-ns))*512));
      if(o_print) printf("resize %ld -> %ld of %ld: %s\n",(long)(old-mn),(long)(ns-mn),(long)t->max,r?"ok":"NULL");
      if(bad){ if(r) fail("range","resize to %ld of %ld did not fail",(long)(ns-mn),(long)t->max); if(s->start!=old) fail("range","a rejected resize changed the start"); }
      else { if(r!=ns) fail("resize","resize to %ld of %ld returned %p",(long)(ns-mn),(long)t->max,(void*)r); if(s->start!=ns) fail("resize","start is %ld after a resize to %ld",(long)(s->start-mn),(long)(ns-mn)); if(ns>old) memset(t->known+(old-mn),0,(size_t)(ns-old)); }
      if(s->end!=end||s->min_start!=mn||s->top!=end) fail("resize","resize changed the bounds of the stack");
      if(fkind) break; 
      for(o=(uw)(s->start-mn);o<t->max;o++) if(t->known[o]&&t->base[o]!=t->shadow[o]){ fail("content","byte %ld of the retained area changed (stack of %ld bytes, start moved from %ld to %ld)",(long)o,(long)t->max,(long)(old-mn),(long)(s->start-mn)); break; } else s_n[S_BYTES]++;
      if(!fkind){ uw a=(uw)(s->start-mn); if(s->start<old) wr(t,a,(uw)(old-mn)); else { uw l=t->max-a; uw f=a+rn((unsigned)l),e=f+rn(5000); if(e>t->max) e=t->max; wr(t,f,e); } }
    } }
  for(k=0;k<nt;k++){ free(T[k].shadow); free(T[k].known); ret_n=0; LIB(sljit_free_stack(T[k].s,0)); }
  if(!fkind){ if(mapped!=map0) fail("leak","%ld bytes remain mapped after the stacks were freed",(long)(mapped-map0)); if(liveheap!=heap0) fail("leak","%ld heap blocks remain",liveheap-heap0); }
}
#include <signal.h>
#include <setjmp.h>
static sigjmp_buf jb; static volatile int armed;
static void onsig(int s){ if(!armed||threads>1){ char b[200]; int n=snprintf(b,sizeof b,"FAIL profile=%s seed=%llu kind=crash signal %d\nSTAT runs=1 fails=1\n",mode,(unsigned long long)curseed,s); if(write(1,b,(size_t)n)<0){} _exit(1); } armed=0; siglongjmp(jb,s); }
int main(int argc,char**argv)
{ u64 seed=1; long count=10,k; int j,nf=0,maxf=5; const char*forms=0,*what="alloc";
  for(j=1;j<argc;j++){ char*e=strchr(argv[j],'='); if(!e) continue; *e++=0; if(!strcmp(argv[j],"seed")) seed=strtoull(e,0,0); else if(!strcmp(argv[j],"count")) count=atol(e); else if(!strcmp(argv[j],"profile")) mode=e; else if(!strcmp(argv[j],"indep")) o_indep=atoi(e); else if(!strcmp(argv[j],"threads")) threads=atoi(e); else if(!strcmp(argv[j],"faults")) o_faults=atoi(e); else if(!strcmp(argv[j],"forms")) forms=e; else if(!strcmp(argv[j],"print")) o_print=atoi(e); else if(!strcmp(argv[j],"maxfail")) maxf=atoi(e); }
  if(!strcmp(mode,"stack")) what="stack"; if(!strcmp(mode,"huge")) what="huge"; setvbuf(stdout,0,_IOLBF,1<<16); rs=1;
  { u8*q; struct sljit_stack*s; q=(u8*)SLJIT_BUILTIN_MALLOC_EXEC(100,0); if(q){
#if PROT
      q+=sljit_exec_offset((void*)q);
#endif
      SLJIT_BUILTIN_FREE_EXEC(q,0); sljit_free_unused_memory_exec(); } s=sljit_allocate_stack(5000,10000,0); if(s){ sljit_stack_resize(s,s->end-100); sljit_free_stack(s,0); } }
  { struct sljit_compiler*c=sljit_create_compiler(0); if(!c){ fprintf(stderr,"HARNESS no compiler\n"); return 9; } sljit_free_compiler(c); nfds(); }
  { struct sigaction sa; int sg[]={SIGSEGV,SIGBUS,SIGILL,SIGABRT,SIGFPE,SIGALRM}; static u8 alt[65536]; stack_t st; memset(&st,0,sizeof st); st.ss_sp=alt; st.ss_size=sizeof alt; sigaltstack(&st,0); memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(j=0;j<6;j++) sigaction(sg[j],&sa,0); }
  for(k=0;k<count;k++){ int sg; curseed=seed+(u64)k; fkind=0; armed=1; alarm(100); sg=sigsetjmp(jb,1);
    if(sg){ fkind=sg==SIGALRM?"hang":"crash"; snprintf(det,sizeof det,"signal %d",sg); }
    else if(!strcmp(what,"stack")) run_stack(curseed); else if(!strcmp(what,"huge")) run_huge(curseed); else run_alloc(curseed);
    alarm(0); armed=0; inlib=0; CNT(15);
    if(fkind){ printf("FAIL profile=%s seed=%llu kind=%s %s\n",mode,(unsigned long long)curseed,fkind,det); nf++; k++; break; } /* the allocator state is not reliable after a failure */ }
  (void)maxf;
  printf("STAT runs=%ld allocations=%ld frees=%ld null_results=%ld blocks_verified=%ld bytes_verified=%ld code_executions=%ld constants_written=%ld free_unused_calls=%ld allocations_from_free_memory=%ld process_map_checks=%ld mappings=%ld unmappings=%ld faults_injected=%ld rejected_requests=%ld stacks=%ld resizes=%ld madvise_calls=%ld threads=%ld states=%u fails=%d\n",s_n[15],s_n[S_ALLOC],s_n[S_FREE],s_n[S_NULL],s_n[S_VER],s_n[S_BYTES],s_n[S_EXEC],s_n[S_CONST],s_n[S_UNUSED],s_n[S_REUSE],s_n[S_MAPS],n_maps,n_unmaps,n_faults,s_n[S_REJ],s_n[S_STK],s_n[S_RESIZE],s_n[S_MADV],s_n[S_THR],hn,nf);
  if(forms){ FILE*f=fopen(forms,"w"); unsigned h; if(f){ for(h=0;h<HS;h++) if(hset[h]) fprintf(f,"%llx\n",(unsigned long long)hset[h]); fclose(f); } }
  return nf?1:0; }
