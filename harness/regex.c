/* C18: the regex compiler against a direct reference matcher. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/time.h>
#include "sljitLir.h"
#include "regexJIT.h"
typedef uint8_t u8; typedef uint64_t u64; typedef uint32_t u32;
/* ---- random ---- */
static u64 rs; static u64 rnd(void){ u64 z=(rs+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static u32 R(u32 n){ return (u32)(rnd()%n); }
static int P(int pc){ return (int)R(100)<pc; }
/* ---- fault injection and block ledger ---- */
void *__real_malloc(size_t); void __real_free(void*);
static long in_lib, req, fail_at=-1, fail_from; static long live; static long faults;
static void *blk[1<<16]; static int blkn;
void *__wrap_malloc(size_t n){ void *p; if(!in_lib) return __real_malloc(n);
  req++; if(fail_at>=0 && (req==fail_at || (fail_from && req>fail_at))) { faults++; return 0; }
  p=__real_malloc(n); if(p){ memset(p,0xa5,n); live++; if(blkn<(1<<16)) blk[blkn++]=p; } return p; }
static const char*oomerr;
void __wrap_free(void*p){ int k; if(!in_lib||!p){ __real_free(p); return; }
  for(k=blkn-1;k>=0;k--) if(blk[k]==p) break;
  if(k<0) oomerr="free of an unknown block"; else { blk[k]=blk[--blkn]; live--; }
  __real_free(p); }
#define LIB(x) (in_lib=1, (x), in_lib=0)
/* ---- reference: syntax tree ---- */
enum { T_EMPTY, T_SET, T_CAT, T_ALT, T_REP, T_ID };
typedef struct node { int t, a, b, min, max; u8 set[32]; } node;
#define MAXN 4000
static node N[MAXN]; static int nn;
static int mk(int t){ if(nn>=MAXN) return 0; memset(&N[nn],0,sizeof(node)); N[nn].t=t; return nn++; }
static int cat(int a,int b){ int r; if(a<0) return b; if(b<0) return a; r=mk(T_CAT); N[r].a=a; N[r].b=b; return r; }
static const u8 *ps; static int pl, pp, pflags, pamb, perr, pnl;
static int setbit(int n,int c){ N[n].set[c>>3]|=(u8)(1<<(c&7)); return n; }
static int p_alt(int depth);
static int p_num(int *q,long *v){ long x=0; int n=0; while(*q<pl && ps[*q]>='0' && ps[*q]<='9'){ x=x*10+(ps[*q]-'0'); if(x>0x7fffffff) { x=0x7fffffff; pamb=1; } ++*q; n++; } *v=x; return n; }
/* 0: not an iterator, 1: iterator, 2: id */
static int p_iter(long *mn,long *mx){ int q=pp+1, n; long a=0,b=0;
  n=p_num(&q,&a);
  if(n && q<pl && ps[q]=='}'){ *mn=*mx=a; pp=q+1; return 1; }
  if(n && q+1<pl && ps[q]=='!' && ps[q+1]=='}'){ *mn=a; pp=q+2; return 2; }
  if(q>=pl || ps[q]!=',') return 0;
  if(!n) a=0;
  q++; n=p_num(&q,&b); if(q>=pl || ps[q]!='}') return 0;
  if(!n) b=-1; else if(b<a) return 0;
  *mn=a; *mx=b; pp=q+1; return 1; }
static int p_class(void){ int inv=0,r=mk(T_SET),k,first=1; pp++;
  if(pp<pl && ps[pp]=='^'){ inv=1; pp++; }
  for(;;){ int c,d; if(pp>=pl){ perr=1; return r; }
    c=ps[pp]; if(c==']' && !first) { pp++; break; }
    if(c==']' && first){ if(pp+1<pl && ps[pp+1]=='-' && pp+2<pl && ps[pp+2]!=']') pamb=1; first=0; setbit(r,c); pp++; continue; }
    first=0;
    if(c=='\\'){ pp++; if(pp>=pl){ perr=1; return r; } c=ps[pp]; }
    pp++;
    if(pp+1<pl && ps[pp]=='-' && ps[pp+1]!=']'){ pp++; d=ps[pp]; if(d=='\\'){ pp++; if(pp>=pl){ perr=1; return r; } d=ps[pp]; } pp++; if(c>d){ k=c; c=d; d=k; } for(k=c;k<=d;k++) setbit(r,k); }
    else setbit(r,c); }
  if(inv) for(k=0;k<32;k++) N[r].set[k]^=0xff;
  return r; }
static int p_seq(int depth){ int whole=-1, term=-1, begin=1, lit; long mn,mx;
  for(;;){ int c,r; if(perr||pp>=pl) break; c=ps[pp];
    if(c=='|') break;
    if(c==')'){ if(!depth) perr=1; break; }
    if(c=='*'||c=='+'||c=='?'){ if(begin||term<0){ perr=1; break; } r=mk(T_REP); N[r].a=term; N[r].min=c=='+'; N[r].max=c=='?'?1:-1; term=r; pp++; continue; }
    lit=0;
    if(c=='{'){ int q=pp, k=p_iter(&mn,&mx);
      if(k==2){ r=mk(T_ID); N[r].min=(int)mn; term=cat(term,r); continue; }
      if(k==1 && !begin){ r=mk(T_REP); N[r].a=term; N[r].min=(int)mn; N[r].max=(int)mx; term=r; continue; }
      pp=q; lit=1; }
    whole=cat(whole,term); term=-1;
    if(c=='\\'){ pp++; if(pp>=pl){ perr=1; break; } term=setbit(mk(T_SET),ps[pp]); pp++; begin=0; continue; }
    if(c=='('){ pp++; r=p_alt(depth+1); if(perr) break; if(pp>=pl||ps[pp]!=')'){ perr=1; break; } pp++; term=r; begin=0; continue; }
    if(c=='.'){ int k; r=mk(T_SET); for(k=0;k<32;k++) N[r].set[k]=0xff; if(pnl){ N[r].set['\n'>>3]&=(u8)~(1<<('\n'&7)); N[r].set['\r'>>3]&=(u8)~(1<<('\r'&7)); } term=r; pp++; begin=0; continue; }
    if(c=='['){ term=p_class(); begin=0; continue; }
    if(c=='$' && pp==pl-1){ pflags|=REGEX_MATCH_END; pp++; break; }
    term=setbit(mk(T_SET),c); pp++;
    if(lit){ if(begin){ /* whether an operator may follow a literal { which starts a branch is not documented */ if(pp<pl && strchr("*+?{",ps[pp])) pamb=1; } }
    begin=0; }
  whole=cat(whole,term); return whole<0?mk(T_EMPTY):whole; }
static int p_alt(int depth){ int a=p_seq(depth); while(!perr && pp<pl && ps[pp]=='|'){ int r,b; pp++; b=p_seq(depth); r=mk(T_ALT); N[r].a=a; N[r].b=b; a=r; } return a; }
static int refparse(const u8*s,int len,int fl){ int r; ps=s; pl=len; pp=0; perr=pamb=0; nn=1; pflags=fl; pnl=fl&REGEX_NEWLINE;
  if(len && s[0]=='^'){ pflags|=REGEX_MATCH_BEGIN; pp=1; }
  r=p_alt(0); if(!perr && pp<pl) perr=1; return r; }
/* ---- reference: matching. v[p] is the highest id of a path which reaches position p or -1 ---- */
#define MAXS 96
static const u8*ss; static int sl, waiting; static long work;
static void ev(int n,const int*in,int*out){ int tmp[MAXS+1],k,p,ch; node*x=&N[n];
  if(++work>200000){ for(p=0;p<=sl;p++) out[p]=-1; return; }
  switch(x->t){
  case T_EMPTY: memcpy(out,in,sizeof(int)*(size_t)(sl+1)); return;
  case T_ID: for(p=0;p<=sl;p++) out[p]=in[p]<0?-1:in[p]>x->min?in[p]:x->min; return;
  case T_SET: out[0]=-1; if(in[sl]>=0) waiting=1; for(p=0;p<sl;p++) out[p+1]=in[p]>=0 && (x->set[ss[p]>>3]>>(ss[p]&7)&1)?in[p]:-1; return;
  case T_CAT: ev(x->a,in,tmp); for(p=0;p<=sl;p++) if(tmp[p]>=0) break; if(p>sl){ memcpy(out,tmp,sizeof(int)*(size_t)(sl+1)); return; } ev(x->b,tmp,out); return;
  case T_ALT: ev(x->a,in,tmp); ev(x->b,in,out); for(p=0;p<=sl;p++) if(tmp[p]>out[p]) out[p]=tmp[p]; return;
  case T_REP: { int cur[MAXS+1],res[MAXS+1]; memcpy(cur,in,sizeof(int)*(size_t)(sl+1));
    if(x->max==0){ memcpy(out,in,sizeof(int)*(size_t)(sl+1)); return; }
    for(k=0;k<x->min;k++){ ev(x->a,cur,tmp); memcpy(cur,tmp,sizeof(int)*(size_t)(sl+1)); for(p=0;p<=sl;p++) if(cur[p]>=0) break; if(p>sl) break; }
    memcpy(res,cur,sizeof(int)*(size_t)(sl+1));
    for(k=x->min;x->max<0||k<x->max;k++){ ch=0; ev(x->a,cur,tmp); for(p=0;p<=sl;p++) if(tmp[p]>res[p]){ res[p]=tmp[p]; ch=1; } memcpy(cur,tmp,sizeof(int)*(size_t)(sl+1)); if(!ch) break; }
    memcpy(out,res,sizeof(int)*(size_t)(sl+1)); return; } } }
static int isnl(int c){ return c=='\n'||c=='\r'; }
typedef struct { int b,e,id; } res;
/* Result and liveness for the first n characters. */
static int liveb[MAXS+2];
static res refmatch(int root,const u8*s,int n,int fl){ res r={-1,0,0}; int b,e,in[MAXS+1],out[MAXS+1]; ss=s; sl=n; work=0;
  for(b=0;b<=n;b++){ liveb[b]=0;
    if((fl&REGEX_MATCH_BEGIN) && b && !((fl&REGEX_NEWLINE) && isnl(s[b-1]))) continue;
    for(e=0;e<=n;e++) in[e]=-1;
    in[b]=0; waiting=0; ev(root,in,out);
    if(fl&REGEX_MATCH_END && fl&REGEX_NEWLINE && out[n]>=0) waiting=1;
    liveb[b]=waiting;
    if(r.b>=0) continue;
    for(e=0;e<=n;e++) if(out[e]>=0){
      if(fl&REGEX_MATCH_END && e!=n && !((fl&REGEX_NEWLINE) && isnl(s[e]))) continue;
      if(r.b<0 || !(fl&REGEX_MATCH_NON_GREEDY)){ r.b=b; r.e=e; r.id=out[e]; } } }
  return r; }
/* ---- generator ---- */
static u8 pat[600]; static int plen; static const u8 *alpha; static int nalpha; static int gid, ghi;
static void pc(int c){ if(plen<(int)sizeof(pat)-8) pat[plen++]=(u8)c; }
static void pstr(const char*s){ while(*s) pc(*s++); }
static int gch(void){ if(ghi && P(10)) return P(20)?0:P(30)?R(256):(int)(R(4)+126); if(P(2)) return "\n\r-]^[{}$.|*+?()\\,!"[R(19)]; return alpha[R((u32)nalpha)]; }
static void glit(int c){ if(strchr("\\.()|*?+[{",c)&&c) { pc('\\'); pc(c); } else if((c=='$'||c=='^')&&P(80)){ pc('\\'); pc(c); } else { if(P(3)) pc('\\'); pc(c); } }
static void gcls(int c,int first){ if(c==']'&&first&&P(50)) { pc(c); return; } if(c==']'||c=='\\'||c=='-'||(c=='^'&&first)) { pc('\\'); pc(c); } else { if(P(4)) pc('\\'); pc(c); } }
static void gnum(long v){ char b[32]; if(P(10)) pc('0'); if(P(3)) pstr("00"); sprintf(b,"%ld",v); pstr(b); }
static long budget;
static void galt(int d,long mult);
static void gatom(int d,long mult){ int k,n;
  switch(R(d>0?12:8)){
  case 0: case 1: case 2: case 3: glit(gch()); break;
  case 4: pc('.'); break;
  case 5: case 6: pc('['); if(P(30)) pc('^'); n=1+(int)R(4); for(k=0;k<n;k++){ gcls(gch(),k==0); if(P(35)){ pc('-'); gcls(gch(),0); } } if(P(8)) pc('-'); pc(']'); break;
  case 7: if(gid){ pc('{'); gnum(P(80)?R(5):R(100000)); pstr("!}"); if(P(70)) glit(gch()); } else glit(gch()); break;
  default: pc('('); galt(d-1,mult); pc(')'); } }
static void gseq(int d,long mult){ int k,n=P(6)?0:1+(int)R(d>1?3:4);
  for(k=0;k<n;k++){ int j=0; long m=mult; int from=plen; u8 sub[64]; (void)sub;
    gatom(d,mult); (void)from;
    while(P(j?15:38)&&j<3){ int c=(int)R(7); j++;
      switch(c){ case 0: pc('*'); break; case 1: pc('+'); break; case 2: pc('?'); break;
      default: { long a=P(70)?R(4):R(9), b=a+(P(50)?R(4):R(8)); if(m*(b+1)>budget) { pc('?'); break; } m*=b+1; pc('{');
        if(c==3) gnum(a); else if(c==4){ gnum(a); pc(','); } else if(c==5){ pc(','); if(P(80)) gnum(b); } else { gnum(a); pc(','); gnum(P(5)?(long)R(4):b); }
        pc('}'); } } }
    if(gid && P(15)){ pc('{'); gnum(R(5)); pstr("!}"); if(P(20)) pc("*+?"[R(3)]); } } }
static void galt(int d,long mult){ gseq(d,mult); while(P(22)) { pc('|'); gseq(d,mult); } }
static int failed, o_print; static long nmatch,npos,nneg,nfin,ninv,nchunk,ncomp; static const char *forms; static u64 curseed;
#define HS (1<<18)
static u64 hset[HS]; static long nforms;
static void form(u64 h){ u32 k; h=h*0x9e3779b97f4a7c15ull^(h>>29); if(!h) h=1; k=(u32)(h>>40)&(HS-1); while(hset[k]&&hset[k]!=h) k=(k+1)&(HS-1); if(!hset[k]){ if(nforms<HS/2){ hset[k]=h; nforms++; } } }
static void pprint(const char*t,const u8*s,int n){ int k; printf("  %s (%d): ",t,n); for(k=0;k<n&&k<200;k++) if(s[k]>=32&&s[k]<127) putchar(s[k]); else printf("\\x%02x",s[k]); printf("\n"); }
static u8 subj[MAXS]; static int slen;
static void report(const char*kind,int fl,const char*fmt,long a,long b,long c,long d){ printf("FAIL seed=%llu kind=%s ",(unsigned long long)curseed,kind); printf(fmt,a,b,c,d); printf(" flags=%#x\n",fl); pprint("pattern",pat,plen); pprint("subject",subj,slen); failed++; }
static char*exact(const u8*s,int n){ char*p=__real_malloc((size_t)n+!n); memcpy(p,s,(size_t)n); return p; }
static int feed_check(struct regex_match*m,int root,int ok,int fl,int pfl){ int pos=0, last_fin=0, ffl=pfl; res r; (void)ok;
  while(1){ int end=-77,id=-77,b,n,fin; char*buf;
    LIB(b=regex_get_result(m,&end,&id)); LIB(fin=regex_is_match_finished(m)); nmatch++;
    r=refmatch(root,subj,pos,ffl); if(work>200000) return 0;
    if(b!=r.b || (b>=0 && (end!=r.e || id!=r.id))){ char t[200]; sprintf(t,"after %d chars begin %%ld end %%ld, expected %%ld %%ld (id %d expected %d)",pos,b>=0?id:0,r.id); report("result",fl,t,b,b>=0?end:0,r.b,r.e); return 1; }
    if(b>=0) npos++; else nneg++;
    form((u64)(pfl&31)|(u64)(b>=0)<<6|(u64)(b>0)<<7|(u64)(fin!=0)<<8|(u64)(id>0&&b>=0)<<9|(u64)(b>=0&&end==b)<<10|(u64)(b>=0&&end==pos)<<11|(u64)N[root].t<<12|(u64)(b>3?3:b+1)<<16|(u64)(end-b>3?3:end-b)<<20);
    /* finished must be true exactly when nothing can change the result */
    if(last_fin && !fin){ report("finished",fl,"the finished state was lost after %ld chars",pos,0,0,0); return 1; }
    if(pos>0){ int live=0,j,must; res rr=r;
      if((pfl&REGEX_MATCH_BEGIN) && !(pfl&REGEX_NEWLINE)){ if(pfl&REGEX_MATCH_END) must=!liveb[0]&&r.b<0; else if((pfl&REGEX_MATCH_NON_GREEDY)&&r.b>=0) must=1; else must=!liveb[0]; }
      else if((pfl&REGEX_MATCH_END) && !(pfl&REGEX_NEWLINE)) must=0;
      else { /* a match counts for this purpose when it was confirmed by a character */
        if((pfl&REGEX_MATCH_END) && r.b>=0){ /* drop matches which end at the end of the subject */ int k,in[MAXS+1],out[MAXS+1],e; rr.b=-1; for(k=0;k<=pos&&rr.b<0;k++){ if((pfl&REGEX_MATCH_BEGIN)&&k&&!isnl(subj[k-1])) continue; for(e=0;e<=pos;e++) in[e]=-1; in[k]=0; ev(root,in,out); for(e=0;e<pos;e++) if(out[e]>=0&&isnl(subj[e])) rr.b=k; } }
        if(rr.b<0) must=0; else { for(j=0;j<=pos;j++) if(liveb[j] && (j<rr.b || (j==rr.b && !(pfl&REGEX_MATCH_NON_GREEDY)))) live=1; must=!live; } }
      if(fin && !must){ report("finished",fl,"finished after %ld chars although the result may change",pos,0,0,0); return 1; }
      if(!fin && must && !((pfl&REGEX_MATCH_BEGIN)&&(pfl&REGEX_NEWLINE))){ report("finished",fl,"not finished after %ld chars although the result is final",pos,0,0,0); return 1; }
      nfin+=fin!=0; }
    last_fin=fin;
    if(pos>=slen) return 0;
    n=P(40)?1:P(20)?0:P(30)?slen-pos:1+(int)R((u32)(slen-pos)); if(n>slen-pos) n=slen-pos;
    buf=exact(subj+pos,n); nchunk++;
    if(P(25)) LIB(regex_continue_match_debug(m,buf,n)); else LIB(regex_continue_match(m,buf,n));
    if(P(50)) memset(buf,'#',(size_t)n);
    __real_free(buf); pos+=n; } }
static void gsubject(int root){ int k,n; (void)root; slen=0; n=(int)(P(10)?R(3):P(20)?R(60):R(16));
  while(slen<n){ if(P(55)) subj[slen++]=alpha[R((u32)nalpha)]; else if(P(15)) subj[slen++]="\n\r"[R(2)]; else { for(k=0;k<6;k++){ int c=pat[R((u32)(plen?plen:1))]; if(plen&&!(k<4&&strchr("()|*+?{}[]\\",c))){ subj[slen++]=(u8)c; break; } } if(k==6) subj[slen++]=(u8)gch(); }
    if(P(12)&&slen<n){ int c=subj[slen-1],r=(int)R(6); while(r--&&slen<n) subj[slen++]=(u8)c; } } }
static int one(u64 seed,int faultsmode){ int fl=0,err=-1,root,k,amb,inv,pfl,f0=failed; struct regex_machine*m; char*pb;
  static const char*alphas[]={"ab","abc","abcx","abcdefgh","a","ab\n","a-]c","0123ab"};
  rs=seed*0x2545F4914F6CDD1Dull+77; curseed=seed; plen=0; slen=0; k=(int)R(8); alpha=(const u8*)alphas[k]; nalpha=(int)strlen(alphas[k]);
  gid=P(40); ghi=P(15); budget=faultsmode?12:P(10)?400:60;
  if(P(30)) fl|=REGEX_MATCH_BEGIN; if(P(30)) fl|=REGEX_MATCH_END; if(P(30)) fl|=REGEX_NEWLINE; if(P(30)) fl|=REGEX_MATCH_NON_GREEDY; if(P(25)) fl=0;
  if(P(20)) pc('^');
  galt(1+(int)R(3),1);
  if(P(20)) pc('$');
  if(P(12)){ int n=1+(int)R(3); while(n--&&plen){ int i=(int)R((u32)plen); switch(R(4)){ case 0: pat[i]=(u8)"()|*+?{}[]\\^$.,!-0a"[R(19)]; break; case 1: memmove(pat+i,pat+i+1,(size_t)(plen-i-1)); plen--; break; case 2: if(plen<590){ memmove(pat+i+1,pat+i,(size_t)(plen-i)); pat[i]=(u8)"()|*+?{}[]\\^$.,!-0a"[R(19)]; plen++; } break; default: plen=i; } } }
  if(P(3)){ plen=(int)R(12); for(k=0;k<plen;k++) pat[k]=(u8)"()|*+?{}[]\\^$.,!-01ab"[R(21)]; }
  root=refparse(pat,plen,fl); inv=perr; amb=pamb||nn>=MAXN; pfl=pflags; if(nn>=MAXN) return 0;
  { /* repetitions of mutated patterns may blow up, which is documented */ double c=1; for(k=1;k<nn;k++) if(N[k].t==T_REP){ c*=1+(N[k].max>N[k].min?N[k].max:N[k].min); } if(c>3000) return 0; }
  if(o_print){ pprint("pattern",pat,plen); }
  pb=exact(pat,plen);
  if(faultsmode){ long total,f; live=0; blkn=0; req=0; fail_at=-1; LIB(m=regex_compile(pb,plen,fl,&err)); total=req; if(m) LIB(regex_free_machine(m));
    if(live){ report("leak",fl,"%ld blocks remain after regex_free_machine",live,0,0,0); live=0; }
    for(f=1;f<=total && failed==f0;f++) for(fail_from=0;fail_from<2;fail_from++){ err=-1; req=0; blkn=0; live=0; oomerr=0; fail_at=f; LIB(m=regex_compile(pb,plen,fl,&err)); fail_at=-1;
      if(m || (err!=REGEX_MEMORY_ERROR && !(inv&&err==REGEX_INVALID_REGEX))) report("oom",fl,"request %ld failed: error %ld machine %ld",f,err,m!=0,0);
      if(live) report("oom",fl,"request %ld failed: %ld blocks leaked",f,live,0,0);
      if(oomerr){ printf("%s\n",oomerr); report("oom",fl,"request %ld failed: bad free",f,0,0,0); }
      if(failed!=f0) break; form(0x5000000000ull|(u64)(f>40?40:f)<<8|(u64)fail_from|(u64)(total>60?60:total)<<16); }
    __real_free(pb); return failed!=f0; }
  LIB(m=regex_compile(pb,plen,fl,P(5)?0:&err)); if(err==-1) err=m?REGEX_NO_ERROR:inv?REGEX_INVALID_REGEX:REGEX_MEMORY_ERROR; __real_free(pb); ncomp++;
  if(inv){ if(!amb){ if(m||err!=REGEX_INVALID_REGEX) report("parse",fl,"an invalid pattern is accepted, error %ld",err,0,0,0); else ninv++; } }
  else if(!m){ if(!amb) report("parse",fl,"a valid pattern is refused, error %ld",err,0,0,0); }
  else if(err!=REGEX_NO_ERROR) report("parse",fl,"error code %ld with a machine",err,0,0,0);
  if(m){ struct regex_match*mt[2]={0,0}; int t;
    for(t=0;t<6&&failed==f0;t++){ int w=(int)R(2); gsubject(root); if(t==0) slen=0;
      if(!mt[w]) LIB(mt[w]=regex_begin_match(m)); else LIB(regex_reset_match(mt[w]));
      if(!mt[w]) break;
      if(!amb&&!inv) feed_check(mt[w],root,1,fl,pfl); else { char*b=exact(subj,slen); LIB(regex_continue_match(mt[w],b,slen)); __real_free(b); }
      if(P(25)&&failed==f0&&slen>1){ /* leave the match in the middle, then reset */ char*b=exact(subj,slen/2); LIB(regex_reset_match(mt[w])); LIB(regex_continue_match(mt[w],b,slen/2)); __real_free(b); } }
    if(mt[0]) LIB(regex_free_match(mt[0])); if(mt[1]) LIB(regex_free_match(mt[1])); LIB(regex_free_machine(m)); }
  if(failed==f0 && live){ report("leak",fl,"%ld blocks leaked",live,0,0,0); }
  live=0; blkn=0;
  return failed!=f0; }
static sigjmp_buf jb;
static void onsig(int s){ printf("FAIL seed=%llu kind=signal signal %d\n",(unsigned long long)curseed,s); in_lib=0; fail_at=-1; pprint("pattern",pat,plen); pprint("subject",subj,slen); fflush(stdout); failed++; siglongjmp(jb,1); }
int main(int argc,char**argv){ u64 seed=1,count=1,s; int j,maxfail=3,fm=0,sg[]={SIGSEGV,SIGBUS,SIGILL,SIGABRT,SIGFPE,SIGALRM}; static u8 alt[65536]; stack_t st; struct sigaction sa; FILE*devnull=0;
  (void)devnull; setvbuf(stdout,0,_IOLBF,0);
  for(j=1;j<argc;j++){ char*e=strchr(argv[j],'='); if(!e) continue; *e++=0; if(!strcmp(argv[j],"seed")) seed=strtoull(e,0,0); else if(!strcmp(argv[j],"count")) count=strtoull(e,0,0); else if(!strcmp(argv[j],"maxfail")) maxfail=atoi(e); else if(!strcmp(argv[j],"forms")) forms=e; else if(!strcmp(argv[j],"print")) o_print=atoi(e); else if(!strcmp(argv[j],"profile")) fm=!strcmp(e,"faults"); }
  st.ss_sp=alt; st.ss_size=sizeof alt; st.ss_flags=0; sigaltstack(&st,0); memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK; for(j=0;j<6;j++) sigaction(sg[j],&sa,0);
  for(s=seed;s<seed+count && failed<maxfail;s++){ alarm(60); if(!sigsetjmp(jb,1)) one(s,fm); live=0; blkn=0; }
  if(forms){ FILE*f=fopen(forms,"w"); if(f){ for(j=0;j<HS;j++) if(hset[j]) fprintf(f,"%llx\n",(unsigned long long)hset[j]); fclose(f); } }
  printf("STAT patterns=%ld results=%ld matches=%ld nomatch=%ld finished=%ld refused=%ld chunks=%ld faults=%ld fails=%d\n",(long)(s-seed),nmatch,npos,nneg,nfin,ninv,nchunk,faults,failed);
  return failed?1:0; }
