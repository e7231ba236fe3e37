/* Emits the instruction list with the sljit API. */
#include "eng.h"
#include "emit.h"
static struct sljit_label *L[MAXLAB]; static int Lidx[MAXLAB];
static struct sljit_jump *J[MAXINS]; static int jorder[2*MAXINS], njo; /* instruction index of the n-th jump structure */
static struct sljit_const *C[2000]; 
static u64 es; static u32 er(u32 n){ es^=es<<13; es^=es>>7; es^=es<<17; return (u32)((es>>20)%n); }
uw lab_addr[MAXLAB], lab_abs[MAXLAB], jump_addr[MAXINS], const_addr[2000]; sw exec_off; uw code_size; u8 jump_rew[MAXINS];
int emit_pc; long emit_counts[K_LAST]; long n_serial, n_api;
char emit_err[512]; FILE *verb_out;
static s32 emit_raw; /* what the last call returned: -999 is NULL */
static int fail(struct sljit_compiler*c,int pc,const char*w){ if(strcmp(w,"emit")) emit_raw=-999; snprintf(emit_err,sizeof emit_err,"%s error=%d at instruction %d kind=%d op=0x%x",w,(int)sljit_get_compiler_error(c),pc,prog[pc].kind,(unsigned)prog[pc].op); return -1; }

#if (defined SLJIT_DEBUG && SLJIT_DEBUG) || (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
#define SERDBG 1
#else
#define SERDBG 0
#endif
int emit_damage; long n_reject, n_mutant;
/* deserialize from an exactly sized copy (so that a sanitizer sees reads after the end) */
static struct sljit_compiler *exact_deser(uw*b,uw size){ uw*m=malloc(size?size:1); struct sljit_compiler*c; memcpy(m,b,size); c=sljit_deserialize_compiler(m,size,0,NULL); memset(m,0xcc,size); free(m); return c; }
static int damage(uw*b,uw size)
{
  uw n=size/sizeof(uw),k,m,big; struct sljit_compiler*c; uw*t=malloc(size+64);
  /* every shorter prefix is incomplete: all of them for small buffers, otherwise a sample with all short ones */
  big=size>60000; for(k=0;k<n;k+=((n<400||k<40||n-k<60)&&!big)?1:big&&k<40?4:1+er((u32)(big?n/8:n/60))){ memcpy(t,b,size); c=exact_deser(t,k*sizeof(uw)); n_reject++; if(c){ sljit_free_compiler(c); snprintf(emit_err,sizeof emit_err,"a prefix of %lu words out of %lu was accepted",(long)k,(long)n); free(t); return 1; } }
  for(k=1;k<sizeof(uw);k++){ c=exact_deser(b,size-k); n_reject++; if(c){ snprintf(emit_err,sizeof emit_err,"size %lu which is not a multiple of the word size was accepted",(long)(size-k)); free(t); return 1; } }
  /* signature and version */
  for(k=0;k<48;k+=big?5:1){ memcpy(t,b,size); ((u8*)t)[k/8]^=(u8)(1<<(k%8)); c=exact_deser(t,size); n_reject++; if(c){ snprintf(emit_err,sizeof emit_err,"buffer with bit %lu of the signature / version changed was accepted",(long)k); free(t); return 1; } }
  /* damaged words: no crash; whether it is accepted is unspecified, except that counts which cannot fit must be rejected */
  for(k=0;k<(big?10:60);k++){ uw w; memcpy(t,b,size); for(m=0;m<=er(3);m++){ uw p=er(2)?2+er(16):er((u32)n); if(p>=n) p=n-1; if(p*sizeof(uw)<8) continue; switch(er(6)){ case 0: w=(uw)1<<er(WBITS); break; case 1: w=~(uw)0-er(4); break; case 2: w=(uw)er(0x10000); break; case 3: w=t[p]+1; break; case 4: w=t[p]-1; break; default: w=t[p]^((uw)1<<er(WBITS)); } t[p]=w; }
    c=exact_deser(t,size); n_mutant++; if(c) sljit_free_compiler(c); }
  free(t); return 0;
}
static struct sljit_jump *lastj;
static struct sljit_compiler *reserial(struct sljit_compiler*c,int opt)
{
  uw size=0,*b=sljit_serialize_compiler(c,(er(2)&&opt&&!SERDBG)?SLJIT_SERIALIZE_IGNORE_DEBUG:0,&size); struct sljit_compiler*n; struct sljit_label*l; struct sljit_jump*j; struct sljit_const*k; int i; lastj=NULL;
  static struct sljit_label *byidx[MAXLAB*2]; int nl=0; int hadlab[2]; (void)hadlab;
  /* remember label relations of every jump */
  static int jl[MAXINS]; static uw jt[MAXINS]; static u8 jm[MAXINS];
  if(!b){ snprintf(emit_err,sizeof emit_err,"serialize returned NULL error=%d",(int)sljit_get_compiler_error(c)); return NULL; }
  i=0; for(j=sljit_get_first_jump(c);j;j=sljit_get_next_jump(j)){ jl[i]=sljit_jump_has_label(j)?(int)sljit_get_label_index(sljit_jump_get_label(j)):-1; jt[i]=sljit_jump_has_target(j)?sljit_jump_get_target(j):0; jm[i]=(u8)((sljit_jump_is_mov_addr(j)!=0)|(sljit_jump_has_target(j)!=0)<<1); i++; }
  if(size%sizeof(uw)){ snprintf(emit_err,sizeof emit_err,"serialized size %lu is not divisible by the word size",(long)size); return NULL; }
  /* serialization does not modify the compiler: doing it again gives the same bytes */
  if(er(4)==0){ uw s3=0,*b3=sljit_serialize_compiler(c,0,&s3),s4=0,*b4=b3?sljit_serialize_compiler(c,0,&s4):NULL; if(!b3||!b4||s3!=s4){ snprintf(emit_err,sizeof emit_err,"repeated serialization: sizes %lu %lu",(long)s3,(long)s4); return NULL; } free(b3); free(b4); }
  if(er(6)==0&&SERDBG){ uw s3=0,*b3=sljit_serialize_compiler(c,SLJIT_SERIALIZE_IGNORE_DEBUG,&s3); struct sljit_compiler*n2; if(!b3){ snprintf(emit_err,sizeof emit_err,"serialize (ignore debug) returned NULL"); return NULL; } n2=exact_deser(b3,s3); free(b3); n_reject++; if(n2){ snprintf(emit_err,sizeof emit_err,"a buffer without debug information was accepted by a debug build"); return NULL; } }
  if(emit_damage&&damage(b,size)) return NULL;
  sljit_free_compiler(c); 
  /* the buffer is position independent: use a copy at another address */
  { uw*b2=malloc(size?size:1); memcpy(b2,b,size); memset(b,0xa5,size); free(b); n=sljit_deserialize_compiler(b2,size,0,NULL); memset(b2,0x5a,size); free(b2); }
  n_serial++;
  if(!n){ snprintf(emit_err,sizeof emit_err,"deserialize returned NULL"); return NULL; }
  for(l=sljit_get_first_label(n);l;l=sljit_get_next_label(l)){ if((int)sljit_get_label_index(l)!=nl){ snprintf(emit_err,sizeof emit_err,"label index %d became %d",nl,(int)sljit_get_label_index(l)); return NULL; } byidx[nl++]=l; }
  for(i=0;i<nlab;i++) if(L[i]){ if(Lidx[i]>=nl){ snprintf(emit_err,sizeof emit_err,"label %d lost",Lidx[i]); return NULL; } L[i]=byidx[Lidx[i]]; }
  i=0; for(j=sljit_get_first_jump(n);j;j=sljit_get_next_jump(j)){ if(i>=njo){ snprintf(emit_err,sizeof emit_err,"extra jumps"); return NULL; }
    { int x=sljit_jump_has_label(j)?(int)sljit_get_label_index(sljit_jump_get_label(j)):-1; uw t=sljit_jump_has_target(j)?sljit_jump_get_target(j):0; u8 m=(u8)((sljit_jump_is_mov_addr(j)!=0)|(sljit_jump_has_target(j)!=0)<<1); if(x!=jl[i]||t!=jt[i]||m!=jm[i]){ snprintf(emit_err,sizeof emit_err,"jump %d changed: label %d->%d target %lx->%lx kind %d->%d",i,jl[i],x,(long)jt[i],(long)t,jm[i],m); return NULL; } }
    if(jorder[i]>=0) J[jorder[i]]=j; i++; lastj=j; }
  if(i!=njo){ snprintf(emit_err,sizeof emit_err,"jumps lost: %d of %d",i,njo); return NULL; }
  i=0; for(k=sljit_get_first_const(n);k;k=sljit_get_next_const(k)){ if(i>=nconst) break; C[i++]=k; }
  { int cnt=0; for(k=sljit_get_first_const(n);k;k=sljit_get_next_const(k)) cnt++; if(cnt!=emit_nconst){ snprintf(emit_err,sizeof emit_err,"consts lost: %d of %d",cnt,emit_nconst); return NULL; } }
  return n;
}
int emit_nconst; long n_vtext;
static void regjump(int pc,struct sljit_jump*j){ J[pc]=j; jump_rew[pc]=0; }
/* jump structures appear in the list in emission order; some indirect calls create one internally */
static void newjumps(struct sljit_compiler*c,int pc){ struct sljit_jump*j=lastj?sljit_get_next_jump(lastj):sljit_get_first_jump(c); for(;j;j=sljit_get_next_jump(j)){ jorder[njo++]=J[pc]==j?pc:-1; lastj=j; } }
static int emit_one(struct sljit_compiler**pc_,int k)
{
  struct sljit_compiler*c=*pc_; ins*i=&prog[k]; s32 r=SLJIT_SUCCESS; struct sljit_jump*j; int n;
  emit_pc=k; n_api++; emit_counts[i->kind]++; emit_raw=0;
  switch(i->kind){
  case K_OP0: r=sljit_emit_op0(c,i->op); break;
  case K_OP1: r=sljit_emit_op1(c,i->op,i->d,i->dw,i->a,i->aw); break;
  case K_OP2: r=sljit_emit_op2(c,i->op,i->d,i->dw,i->a,i->aw,i->b,i->bw); break;
  case K_OP2U: r=sljit_emit_op2u(c,i->op,i->a,i->aw,i->b,i->bw); break;
  case K_OP2R: r=sljit_emit_op2r(c,i->op,i->d,i->a,i->aw,i->b,i->bw); break;
  case K_SHINTO: r=sljit_emit_shift_into(c,i->op,i->d,i->a,i->b,i->c,i->cw); break;
  case K_SRC: r=sljit_emit_op_src(c,i->op,i->a,i->aw); break;
  case K_GETRA: case K_FENTER: r=sljit_emit_op_dst(c,i->op,i->d,i->dw); break;
  case K_FRET: r=sljit_emit_op_src(c,i->op,i->a,i->aw); break;
  case K_FOP1: r=sljit_emit_fop1(c,i->op,i->d,i->dw,i->a,i->aw); break;
  case K_FOP2: r=sljit_emit_fop2(c,i->op,i->d,i->dw,i->a,i->aw,i->b,i->bw); break;
  case K_FOP2R: r=sljit_emit_fop2r(c,i->op,i->d,i->a,i->aw,i->b,i->bw); break;
  case K_FSET: if(i->op&SLJIT_32){ union { u32 u; float f; } v; v.u=(u32)i->bits; r=sljit_emit_fset32(c,i->d,v.f); } else { union { u64 u; double f; } v; v.u=i->bits; r=sljit_emit_fset64(c,i->d,v.f); } break;
  case K_FCOPY: r=sljit_emit_fcopy(c,i->op,i->d,i->a); break;
  case K_LABEL: L[i->lab]=sljit_emit_label(c); if(!L[i->lab]) return fail(c,k,"label"); Lidx[i->lab]=(int)sljit_get_label_index(L[i->lab]); break;
  case K_JUMP: case K_FCALL: j=sljit_emit_jump(c,i->op); goto jmp;
  case K_CMP: j=sljit_emit_cmp(c,i->op,i->a,i->aw,i->b,i->bw); goto jmp;
  case K_FCMP: j=sljit_emit_fcmp(c,i->op,i->a,i->aw,i->b,i->bw); goto jmp;
  case K_OP2CMPZ: j=sljit_emit_op2cmpz(c,i->op,i->d,i->dw,i->a,i->aw,i->b,i->bw); goto jmp;
  case K_OPADDR: j=sljit_emit_op_addr(c,i->op,i->d,i->dw);
  jmp: if(!j) return fail(c,k,"jump"); regjump(k,j); if((i->op&SLJIT_REWRITABLE_JUMP)&&i->kind!=K_OPADDR) jump_rew[k]=1; if(i->lab>=0&&L[i->lab]&&er(2)) sljit_set_label(j,L[i->lab]); break;
  case K_OPFLAGS: r=sljit_emit_op_flags(c,i->op,i->d,i->dw,i->x); break;
  case K_SELECT: r=sljit_emit_select(c,i->op,i->d,i->a,i->aw,i->b); break;
  case K_FSELECT: r=sljit_emit_fselect(c,i->op,i->d,i->a,i->aw,i->b); break;
  case K_MEM: r=sljit_emit_mem(c,i->op,i->a,i->d,i->dw); break;
  case K_MEMU: r=sljit_emit_mem_update(c,i->op,i->a,i->d,i->dw); break;
  case K_FMEM: r=sljit_emit_fmem(c,i->op,i->a,i->d,i->dw); break;
  case K_FMEMU: r=sljit_emit_fmem_update(c,i->op,i->a,i->d,i->dw); break;
  case K_LOCB: r=sljit_get_local_base(c,i->d,i->dw,i->aw); break;
  case K_CONST: C[i->x]=sljit_emit_const(c,i->op,i->d,i->dw,constv[i->x]); if(!C[i->x]) return fail(c,k,"const"); emit_nconst++; break;
  case K_IJUMP: r=sljit_emit_ijump(c,i->op,i->a,i->aw); break;
  case K_CALL: if(i->y){ j=sljit_emit_call(c,SLJIT_CALL,i->c); if(!j) return fail(c,k,"call"); regjump(k,j); sljit_set_target(j,(sljit_uw)i->aw); } else r=sljit_emit_icall(c,SLJIT_CALL,i->c,i->a,i->aw); break;
  case K_PAD: for(n=0;n<i->x&&r==SLJIT_SUCCESS;n++) r=sljit_emit_op0(c,SLJIT_NOP); n_api+=i->x; break;
  case K_RET: if(!i->op) r=sljit_emit_return_void(c); else r=sljit_emit_return(c,i->op,i->a,i->aw); break;
  case K_SETFLAGS: sljit_set_current_flags(c,i->op); break;
  case K_SMOV: r=sljit_emit_simd_mov(c,i->op,i->d,i->a,i->aw); break;
  case K_SREP: r=sljit_emit_simd_replicate(c,i->op,i->d,i->a,i->aw); break;
  case K_SLANE: r=sljit_emit_simd_lane_mov(c,i->op,i->d,i->x,i->a,i->aw); break;
  case K_SLREP: r=sljit_emit_simd_lane_replicate(c,i->op,i->d,i->a,i->x); break;
  case K_SEXT: r=sljit_emit_simd_extend(c,i->op,i->d,i->a,i->aw); break;
  case K_SSIGN: r=sljit_emit_simd_sign(c,i->op,i->a,i->d,i->dw); break;
  case K_SOP2: r=sljit_emit_simd_op2(c,i->op,i->d,i->a,i->b,i->bw); break;
  case K_ROBUF: { struct sljit_read_only_buffer b[4]; struct sljit_label*l; for(n=0;n<i->y;n++){ b[n].next=n+1<i->y?&b[n+1]:NULL; b[n].size=(uw)robs[i->x+n].size; b[n].u.label=NULL; }
      l=sljit_emit_aligned_label(c,i->op,i->y?b:NULL); if(!l) return fail(c,k,"aligned label"); L[i->lab]=l; Lidx[i->lab]=(int)sljit_get_label_index(l);
      if(i->y&&b[0].u.label!=l){ snprintf(emit_err,sizeof emit_err,"first read only buffer label differs from the returned label"); return -1; }
      for(n=1;n<i->y;n++){ L[i->lab+n]=b[n].u.label; if(!L[i->lab+n]) return fail(c,k,"buffer label"); Lidx[i->lab+n]=(int)sljit_get_label_index(b[n].u.label); } break; }
  default: return fail(c,k,"unknown kind");
  }
  emit_raw=r; if(r!=SLJIT_SUCCESS||sljit_get_compiler_error(c)!=SLJIT_SUCCESS) return fail(c,k,"emit");
  return 0;
}
int emit_program(struct emit_opt*o,struct sljit_compiler**out)
{
  struct sljit_compiler*c=sljit_create_compiler(NULL); int k,nser=0; s32 r; njo=0; emit_nconst=0; emit_err[0]=0; es=o->seed|1; memset(L,0,sizeof(L[0])*(size_t)(nlab+1)); memset(jump_rew,0,(size_t)np);
  *out=NULL; if(!c){ snprintf(emit_err,sizeof emit_err,"create_compiler failed"); return -1; }
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
  u64 vs_=o->seed*0x9e3779b97f4a7c15ULL|1; int von=o->verb!=0; long vpos=0; (void)vpos; (void)vs_; (void)von;
  if(o->verb) sljit_compiler_verbose(c,verb_out);
#endif
  lastj=NULL; memset(J,0,sizeof(J[0])*(size_t)np);
  if(o->serial>1&&er(4)==0){ c=reserial(c,1); nser++; if(!c) return -1; }
  r=sljit_emit_enter(c,c_opt,c_args,o->scr,o->sav,c_loc);
  if(r!=SLJIT_SUCCESS){ snprintf(emit_err,sizeof emit_err,"emit_enter error %d options %x args %x scratches %x saveds %x local %d",(int)r,(unsigned)c_opt,(unsigned)c_args,(unsigned)o->scr,(unsigned)o->sav,c_loc); sljit_free_compiler(c); return -1; }
  for(k=0;k<np;k++){
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
    if(o->verb>=2){ vs_^=vs_<<13; vs_^=vs_>>7; vs_^=vs_<<17; if((vs_>>20)%3==0){ von=(vs_>>32)&1; sljit_compiler_verbose(c,von?verb_out:NULL); } }
    if(o->verb==3) vpos=ftell(verb_out);
#endif
    if(emit_one(&c,k)){ sljit_free_compiler(c); return -1; }
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
    if(o->verb==3&&prog[k].kind!=K_SETFLAGS){ long q=ftell(verb_out); n_vtext++; if(!von&&q!=vpos){ snprintf(emit_err,sizeof emit_err,"VERBOSE: output although it is turned off, instruction %d kind=%d op=0x%x",k,prog[k].kind,(unsigned)prog[k].op); sljit_free_compiler(c); return -1; }
      if(von&&q==vpos&&!(prog[k].kind==K_PAD&&!prog[k].x)){ snprintf(emit_err,sizeof emit_err,"VERBOSE: no output for instruction %d kind=%d op=0x%x",k,prog[k].kind,(unsigned)prog[k].op); sljit_free_compiler(c); return -1; } }
#endif
    newjumps(c,k);
    if(o->serial&&!(prog[k].kind==K_PAD)&&nser<o->serial&&er((u32)np/(u32)o->serial+1)==0){ nser++; c=reserial(c,1); if(!c) return -1; 
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
      if(o->verb) sljit_compiler_verbose(c,verb_out); von=o->verb!=0;
#endif
    }
  }
  for(k=0;k<np;k++) if(prog[k].lab>=0&&prog[k].kind!=K_LABEL&&prog[k].kind!=K_ROBUF&&prog[k].kind!=K_CALL&&prog[k].kind!=K_IJUMP){ if(!L[prog[k].lab]){ snprintf(emit_err,sizeof emit_err,"HARNESS: label %d of instruction %d not emitted",prog[k].lab,k); sljit_free_compiler(c); return -2; } if(!sljit_jump_has_label(J[k])||er(4)==0) sljit_set_label(J[k],L[prog[k].lab]); }
  if(o->serial>1&&nser<o->serial){ c=reserial(c,1); if(!c) return -1; }
  *out=c; return 0;
}
void collect(struct sljit_compiler*c)
{
  int k; for(k=0;k<nlab;k++) if(L[k]){ lab_addr[k]=sljit_get_label_addr(L[k]);
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
    lab_abs[k]=sljit_get_label_abs_addr(L[k]);
#else
    lab_abs[k]=sljit_get_label_abs_addr(L[k]);
#endif
  }
  for(k=0;k<np;k++) if(jump_rew[k]) jump_addr[k]=sljit_get_jump_addr(J[k]);
  for(k=0;k<nconst;k++) if(C[k]) const_addr[k]=sljit_get_const_addr(C[k]);
  exec_off=sljit_get_executable_offset(c); code_size=sljit_get_generated_code_size(c);
}
