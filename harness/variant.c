/* C19: the code of a program, its size and the addresses must be the same in every build of the library and with any verbose setting. Emission only: one digest per program. */
#include "emit.c"
#include <sys/mman.h>
#define BLKMAX (16u<<20)
static u8 *blk; static size_t lastn; static int nblk; static char xdet[600]; static FILE *dig; static FILE *rawf; /* the code bytes, when library data has different addresses in different builds */
long n_x_gen,n_x_rej,n_x_bytes,n_x_patch,n_x_same,n_x_scn,n_x_tail;
void *v_exec_malloc(size_t n){ if(n>BLKMAX) return NULL; lastn=n; nblk++; memset(blk,0xa5,n); return blk; }
void v_exec_free(void*p){ (void)p; nblk--; }
long v_exec_offset(void*p){ (void)p; return 0; }
static void __attribute__((constructor)) init(void)
{
  int k; blk=mmap((void*)0x60000000,BLKMAX,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(blk!=(u8*)0x60000000){ fprintf(stderr,"HARNESS: cannot map the code block\n"); _exit(9); }
  for(k=0;k<NCALLEE;k++) callees[k].fn=(void*)(uw)(0x08000000+k*0x40);
}
static u64 H; static void h(const void*p,size_t n){ const u8*q=p; while(n--){ H^=*q++; H*=0x100000001b3ULL; } }
static int outfd=-1,capfd=-1;
/* stdout is a file while the library runs: nothing may be written there */
static void cap_begin(void){ if(capfd<0){ char n[]="/tmp/vcapXXXXXX"; capfd=mkstemp(n); if(capfd<0){ fprintf(stderr,"HARNESS: mkstemp\n"); _exit(9); } unlink(n); outfd=dup(1); } fflush(stdout); dup2(capfd,1); }
static int cap_end(void){ long n; fflush(stdout); n=lseek(capfd,0,SEEK_END); dup2(outfd,1); if(n>0){ char t[64]; long m=pread(capfd,t,60,0); if(m<0) m=0; t[m]=0; ftruncate(capfd,0); lseek(capfd,0,SEEK_SET); snprintf(xdet,sizeof xdet,"the library wrote to stdout: '%s'",t); return 1; } return 0; }
int emit_check(struct emit_opt*eo,u64 seed,const char**d)
{
  struct sljit_compiler*c; void*code; int k,r,bad=0; static u64 cnt; *d=xdet; xdet[0]=0; n_x_scn++; (void)seed; 
  if(!dig){ const char*f=getenv("VERIF_DIG"); dig=fopen(f?f:"/dev/null","w"); setvbuf(dig,NULL,_IOLBF,0); f=getenv("VERIF_RAW"); if(f) rawf=fopen(f,"w"); }
  if(eo->verb==3){ static char*mb; static size_t mn; if(!cnt) verb_out=open_memstream(&mb,&mn); rewind(verb_out); fflush(verb_out); }
  H=0xcbf29ce484222325ULL; cnt++; nblk=0; cap_begin(); r=emit_program(eo,&c);
  if(!r){ code=sljit_generate_code(c,0,NULL); k=(int)sljit_get_compiler_error(c); h(&k,4); if(code){ memset(lab_abs,0,sizeof(uw)*(size_t)nlab); collect(c); n_x_gen++; if(rawf) fwrite(blk,1,code_size,rawf); n_x_bytes+=(long)code_size; h(&lastn,sizeof lastn); h(&code_size,sizeof code_size); if(!rawf) h(blk,code_size); h(&exec_off,sizeof exec_off);
      for(k=0;k<nlab;k++) if(L[k]){ h(&lab_addr[k],sizeof(uw)); h(&lab_abs[k],sizeof(uw)); } for(k=0;k<np;k++) if(jump_rew[k]) h(&jump_addr[k],sizeof(uw)); for(k=0;k<nconst;k++) if(C[k]) h(&const_addr[k],sizeof(uw)); }
    sljit_free_compiler(c); if(code) sljit_free_code(code,NULL); }
  bad=cap_end(); if(r){ *d=emit_err; fprintf(dig,"rejected %s\n",emit_err); return 2; }
  fprintf(dig,"%016llx %lu\n",(unsigned long long)H,(unsigned long)code_size);
  return bad;
}
void variant_recover(void){ if(outfd>=0) dup2(outfd,1); if(dig) fprintf(dig,"crash\n"); }
