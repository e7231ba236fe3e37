/* Generator part 2: control flow, calls, SIMD, prologue and epilogue (included by gen.c). */
static void gen_block(int n);
static int nswitch, nsubs, locscr; 
static struct subinfo { int lab; tst in,out; u64 touched,ftouched,vtouched; } subs[16];
static int stmts; /* remaining statement budget */

/* ---------- static state joins ---------- */
static void merge(tst*a,const tst*b)
{
  int r; for(r=1;r<=NR;r++){ if(a->rt[r]!=b->rt[r]||(a->rt[r]==T_LB&&a->rv[r]!=b->rv[r])){ a->rt[r]=T_U; a->rk[r]=0; } else if(!(a->rk[r]&&b->rk[r]&&a->rv[r]==b->rv[r])) a->rk[r]=0; }
  for(r=1;r<=NFR;r++){ if(a->ft[r]!=b->ft[r]) a->ft[r]=F_U; a->fx[r]|=b->fx[r]; }
  for(r=0;r<MAXREG;r++) if(b->vs[r]<a->vs[r]) a->vs[r]=vpairs?0:b->vs[r]; else if(vpairs&&b->vs[r]>a->vs[r]) a->vs[r]=0;
}
static void lab_open(olab*l){ l->seen=0; l->id=newlab(); }
static void lab_ref(olab*l){ if(dead) return; if(!l->seen){ l->t=S; l->seen=1; } else merge(&l->t,&S); }
/* a label address loaded right before the label */
static void addr_before(int lab){ int r; ins*i; if(dead||rn(12)) return; r=pick_reg(0,1,0,0); if(!r||permlock&(u64)1<<r) return; i=add(K_OPADDR,rn(3)?SLJIT_MOV_ADDR:SLJIT_MOV_ABS_ADDR); i->d=r; i->lab=lab; settype(r,T_U); touched|=(u64)1<<r; }
static void lab_place(olab*l)
{ ins*i; addr_before(l->id); lab_ref(l); i=add(K_LABEL,0); i->lab=l->id; label_pc[l->id]=np-1; if(l->seen){ S=l->t; dead=0; } noflags(); }
/* bring the static state to one that satisfies h */
static void fixup(const tst*h)
{
  int r; ins*i; for(r=1;r<=NR;r++){ if(!isreg(r)||PLK(r)||h->rt[r]==T_U||h->rt[r]==T_LB) continue; if(S.rt[r]!=h->rt[r]){ if(h->rt[r]==T_W) e_movimm(r,rimmw()); else e_movimm32(r,rimm32()); } }
  for(r=1;r<=NFR;r++){ if(!usefreg(r)||h->ft[r]==F_U||(S.ft[r]==h->ft[r]&&(h->fx[r]||!S.fx[r]))) continue; i=add(K_FSET,h->ft[r]==F_32?SLJIT_32:0); i->d=r; i->bits=h->ft[r]==F_32?0x40490fdbu:0x400921fb54442d18ULL; setf(r,h->ft[r],0); noflags(); }
}
/* forget everything that may differ when the code is entered from elsewhere */
static void weaken(void){ int r; for(r=1;r<=NR;r++){ if(!PLK(r)) S.rk[r]=0; if(S.rt[r]==T_LB) S.rt[r]=T_U; } for(r=1;r<=NFR;r++) S.fx[r]=1; memset(S.vs,0,sizeof S.vs); noflags(); }

/* ---------- pads ---------- */
static void pad(int n){ ins*i; if(n<=0) return; i=add(K_PAD,0); i->x=n; }
static void rnd_pad(void)
{
  static const int lim[]={128,128,256,256,1024,2048,2048,4096,4096,32768,65536,131072,262144,524288,1048576};
  int m=P.far; int n; if(m>15)m=15; if(m<1) return; if(stmts>0&&rn(3)) m=m>6?6:m; n=lim[rn((u32)m)]/nopsize; n+=(int)rn(13)-6; n-=(int)rn(40)*(rn(2)?1:0); if(rn(6)==0) n=(int)rn(64); pad(n);
}
/* ---------- jumps ---------- */
static s32 rewr(void){ return (P.rewrite&&rn(4)==0)?SLJIT_REWRITABLE_JUMP:0; }
static void set_sw(ins*i,int first,int cnt){ i->x=first; i->y=cnt; }
static void e_jump(olab*l){ ins*i=add(K_JUMP,SLJIT_JUMP|rewr()); i->lab=l->id; lab_ref(l); dead=1; }
/* conditional jump of any kind to l; falls through otherwise */
static int e_cond(olab*l)
{
  ins t,*i; int k=rn(4),c,x,s,w; begin(); memset(&t,0,sizeof t);
  if(k==0&&(gz||gvar>=0)){ c=pick_cond(); if(c>=0){ i=add(K_JUMP,c|rewr()); i->lab=l->id; lab_ref(l); if((c&~1)==SLJIT_CARRY) noflags(); return 1; } }
  if(k==1&&has_fpu&&P.floats){ int ty=pick_ftype(); s=rn(2); gen_fsrc(s?F_32:F_64,&t.a,&t.aw,&x); gen_fsrc(s?F_32:F_64,&t.b,&t.bw,&x); if(rn(8)==0){ t.b=t.a; t.bw=t.aw; }
    i=add(K_FCMP,ty|(s?SLJIT_32:0)|rewr()); i->lab=l->id; i->a=t.a;i->aw=t.aw;i->b=t.b;i->bw=t.bw; noflags(); lab_ref(l); return 1; }
  if(k==2){ s32 op; int fl=pc(P.flagp); do op=SLJIT_ADD+(s32)rn(16); while(op==SLJIT_ADDC||op==SLJIT_SUBC||op==SLJIT_MUL||op==SLJIT_ROTL||op==SLJIT_ROTR); if(rn(2)) op|=SLJIT_32; w=opw(op);
    if(rn(3)==0) op=(op&SLJIT_32)|(rn(2)?SLJIT_SUB:SLJIT_ADD);
    if(fl){ int v=pick_vflag(op&0xff); if(v>=0) op|=SLJIT_SET(v); }
    gen_2src(op,&t); gen_dst(w,&t.d,&t.dw); if(rn(5)==0&&t.a<SLJIT_IMM&&!PLK(t.a)){ t.d=t.a; t.dw=0; }
    i=add(K_OP2CMPZ,op|(rn(2)?SLJIT_JUMP_IF_ZERO:SLJIT_JUMP_IF_NON_ZERO)|rewr()); i->lab=l->id; i->d=t.d;i->dw=t.dw;i->a=t.a;i->aw=t.aw;i->b=t.b;i->bw=t.bw;
    setflags_after(op&~(s32)SLJIT_REWRITABLE_JUMP); gz=0; gcmpu=2; fin_dst(t.d,w==4?T_I:T_W); lab_ref(l); return 1; }
  w=rn(2)?4:WS; s=rn(10); gen_src(w,1,&t.a,&t.aw); gen_src(w,1,&t.b,&t.bw); if(rn(10)==0&&t.a<SLJIT_IMM){ t.b=t.a; t.bw=0; } else if(rn(6)==0){ t.b=SLJIT_IMM; t.bw=0; }
  i=add(K_CMP,s|(w==4?SLJIT_32:0)|rewr()); i->lab=l->id; i->a=t.a;i->aw=t.aw;i->b=t.b;i->bw=t.bw; noflags(); lab_ref(l); return 1;
}
static int sub_n(int m){ return 1+(int)rn((u32)m); }
static void maybe_pad(void){ if(pc(P.padp)) rnd_pad(); }
static void g_if(void)
{
  olab a,b; lab_open(&a); if(depth>=4||!e_cond(&a)) { if(depth>=4) nlab--; return; } depth++;
  maybe_pad(); gen_block(sub_n(4)); maybe_pad();
  if(rn(2)){ lab_open(&b); if(!dead||rn(4)==0) e_jump(&b); if(rn(3)==0) gen_block(1); maybe_pad(); lab_place(&a); gen_block(sub_n(4)); maybe_pad(); lab_place(&b); } else lab_place(&a);
  depth--;
}
/* a label that keeps flags */
static void g_flaglab(void)
{
  olab a; ins*i; s32 f; int z=gz,v=gvar,w=g32,ad=gadd,cu=gcmpu; if(gz==0&&gvar<0) return; if(gvar==SLJIT_CARRY||gord) return;
  lab_open(&a); i=add(K_JUMP,gz?(int)rn(2):gvar+(int)rn(2)); i->lab=a.id; lab_ref(&a);
  { int k,n=(int)rn(3); for(k=0;k<n;k++){ ins*q; int r=pick_reg(0,1,0,0); if(r){ lock=permlock; if(rn(2)) e_movimm(r,rimmw()); else { q=add(K_OP1,SLJIT_MOV); q->d=r; q->a=SLJIT_MEM0(); q->aw=(sw)((uw)buf+OFF_INT+8*rn(64)); settype(r,T_W); } } } }
  lab_place(&a); f=(z?SLJIT_SET_Z:0)|(v>=0?SLJIT_SET(v):0)|(w?SLJIT_32:0)|(ad==1?SLJIT_CURRENT_FLAGS_ADD:0)|(ad==2?SLJIT_CURRENT_FLAGS_SUB:0)|(ad==2&&cu==1?SLJIT_CURRENT_FLAGS_COMPARE:0)|(cu==2?SLJIT_CURRENT_FLAGS_OP2CMPZ:0);
  add(K_SETFLAGS,f); gz=z; gvar=v; g32=w; gadd=ad; gcmpu=cu; observe();
}
/* observe the current flags in one of the possible ways */
static void observe(void)
{
  int n=(int)rn(3);
  /* flag preserving instructions between setter and observer */
  while(n-->0){ ins*i; int r; begin(); switch(rn(6)){
    case 0: add(K_OP0,SLJIT_NOP); break;
    case 1: r=pick_reg(0,1,0,0); if(r) e_movimm(r,rimmw()); break;
    case 2: { s32 a; sw aw; int loc; sw t=pick_target(WS,WS,0,&loc); r=pick_reg(T_W,0,0,0); if(!r||loc) break; a=SLJIT_MEM0(); aw=t; i=add(K_OP1,SLJIT_MOV); if(rn(2)){ i->d=a; i->dw=aw; i->a=r; } else { r=pick_dst(); if(!r){ np--; break; } i->d=r; i->a=a; i->aw=aw; settype(r,T_W);} break; }
    case 3: { int loc=0; s32 a; sw aw; static const s32 o[]={SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV32_U8,SLJIT_MOV32_S16}; s32 op=o[rn(6)]; r=pick_dst(); if(!r) break; { sw t=pick_target(2,2,0,&loc); if(loc){ a=SLJIT_MEM1(SLJIT_SP); aw=t; } else { a=SLJIT_MEM0(); aw=t; } } i=add(K_OP1,op); i->d=r; i->a=a; i->aw=aw; settype(r,(op&SLJIT_32)?T_I:T_W); break; }
    case 4: r=pick_reg(T_W,0,0,0); n--; { int d=pick_dst(); if(r&&d){ i=add(K_OP1,rn(2)?SLJIT_MOV:SLJIT_MOV_P); i->d=d; i->a=r; if(S.rk[r]) setconst(d,S.rv[r]); else settype(d,T_W); } } break;
    default: if(has_fpu&&P.floats){ int f=pick_freg(0,0,0),g=pick_freg(0,1,0); if(f&&g&&S.ft[f]!=F_U){ int t=S.ft[f],x=S.fx[f]; i=add(K_FOP1,SLJIT_MOV_F64|(t==F_32?SLJIT_32:0)); i->d=g; i->a=f; setf(g,t,x); } } break; } }
  if(pc(10)&&!dead&&depth<3){ g_flaglab(); return; }
  switch(rn(8)){
  case 0: case 1: case 2: g_opflags(); break;
  case 3: case 4: g_select(); break;
  case 5: if(has_fpu&&P.floats) g_fselect(); else g_select(); break;
  default: if(depth<4&&!dead){ int c=pick_cond(); if(c>=0){ olab a; ins*i; lab_open(&a); i=add(K_JUMP,c|rewr()); i->lab=a.id; lab_ref(&a); if((c&~1)==SLJIT_CARRY) noflags(); depth++; if((gz||gvar>=0)&&rn(4)==0) observe(); gen_block(sub_n(2)); depth--; lab_place(&a); } } break;
  }
}
/* ---------- loops ---------- */
static void g_loop(void)
{
  tst h; olab l; int ctr=0,r,slot=0,n=1+(int)rn(4); ins*i; u64 pl=permlock; if(depth>=3||inloop>=2||dead) return; begin();
  if(c_sav+c_scr>=5&&rn(3)){ r=pick_reg(0,1,1,0); if(r){ ctr=r; e_movimm(r,n); } }
  if(!ctr){ slot=OFF_CTR+8*(ctrp++%32); i=add(K_OP1,SLJIT_MOV); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+(uw)slot); i->a=SLJIT_IMM; i->aw=n; }
  depth++; inloop++; if(ctr){ permlock|=(u64)1<<ctr; S.rk[ctr]=0; } weaken(); if(ctr) S.rk[ctr]=0; lab_open(&l); if(rn(3)==0) addr_before(l.id); if(rn(4)==0) addr_before(l.id); h=S; l.seen=1; l.t=S; { ins*q=add(K_LABEL,0); q->lab=l.id; label_pc[l.id]=np-1; }
  if(P.padp&&rn(4)==0){ /* a body around the limits of short branches */ static const int lim[]={128,128,128,256,1024,2048,4096}; if(rn(2)) gen_block(1); if(!dead) pad(lim[rn(P.far>6?7:4)]/nopsize-(int)rn(24)); } else { gen_block(sub_n(5)); maybe_pad(); }
  if(!dead){ olab skip; int w32=0; fixup(&h); noflags(); (void)skip; begin();
    if(rn(2)){ i=add(K_OP2CMPZ,SLJIT_SUB|w32|SLJIT_JUMP_IF_NON_ZERO|rewr()); i->lab=l.id; if(ctr){ i->d=ctr;i->a=ctr; } else { i->d=i->a=SLJIT_MEM0(); i->dw=i->aw=(sw)((uw)buf+(uw)slot); } i->b=SLJIT_IMM; i->bw=1; noflags(); }
    else { i=add(K_OP2,SLJIT_SUB|(rn(2)?SLJIT_SET_Z:SLJIT_SET_Z|SLJIT_SET_GREATER)); if(ctr){ i->d=ctr;i->a=ctr; } else { i->d=i->a=SLJIT_MEM0(); i->dw=i->aw=(sw)((uw)buf+(uw)slot); } i->b=SLJIT_IMM; i->bw=1; { s32 c= (i->op>>10&0x3f)&&rn(2)?SLJIT_GREATER:SLJIT_NOT_ZERO; i=add(K_JUMP,c|rewr()); } i->lab=l.id; noflags(); if(ctr) S.rk[ctr]=0; } }
  permlock=pl; inloop--; depth--; 
}
/* ---------- switches: rewritable jumps, jump tables ---------- */
static int r_scr(void){ int o=OFF_SCR+8*(scrp%32); scrp++; return o; }
static void g_switch(void)
{
  olab c[4],end; int n=2+(int)rn(3),k,mode=rn(4); ins*i; tst entry; if(depth>=3||dead) return; begin();
  if(mode==0&&P.ijmp){ /* indirect jump through one register */
    int r=pick_reg(0,1,1,0); if(!r) return; n=1; lab_open(&c[0]); i=add(K_OPADDR,SLJIT_MOV_ADDR); i->d=r; i->lab=c[0].id; settype(r,T_U); touched|=(u64)1<<r;
    if(rn(2)){ int o=r_scr(); i=add(K_OP1,SLJIT_MOV_P); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+(uw)o); i->a=r; i=add(K_IJUMP,SLJIT_JUMP); i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+(uw)o); if(rn(2)&&(k=pick_reg(0,1,1,1))){ np--; e_movimm(k,(sw)((uw)buf+(uw)o-64)); i=add(K_IJUMP,SLJIT_JUMP); i->a=SLJIT_MEM1(k); i->aw=64; } }
    else { i=add(K_IJUMP,SLJIT_JUMP); i->a=r; }
    lab_ref(&c[0]); dead=1; maybe_pad(); if(rn(2)) gen_block(1); lab_place(&c[0]); return; }
  if(mode==1&&P.ijmp){ /* jump table in memory */
    int o=OFF_SCR+8*(32+4*(int)rn(4)),r,q; n=rn(2)?2:4; r=pick_reg(0,1,1,1); if(!r) return; lock|=(u64)1<<r; q=pick_reg(0,1,1,1); if(!q) return; lock|=(u64)1<<q;
    for(k=0;k<n;k++){ lab_open(&c[k]); i=add(K_OPADDR,SLJIT_MOV_ADDR); i->lab=c[k].id; if(rn(2)){ i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+(uw)o+(uw)k*WS); } else { i->d=q; settype(q,T_U); i=add(K_OP1,SLJIT_MOV); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+(uw)o+(uw)k*WS); i->a=q; } }
    i=add(K_OP1,SLJIT_MOV); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_IN+8*rn(32)); settype(r,T_W);
    i=add(K_OP2,SLJIT_AND); i->d=r; i->a=r; i->b=SLJIT_IMM; i->bw=n-1; noflags();
    e_movimm(q,(sw)((uw)buf+(uw)o)); if(rn(2)){ i=add(K_IJUMP,SLJIT_JUMP); i->a=SLJIT_MEM2(q,r); i->aw=WS==8?3:2; } else { i=add(K_OP1,SLJIT_MOV_P); i->d=q; i->a=SLJIT_MEM2(q,r); i->aw=WS==8?3:2; settype(q,T_U); i=add(K_IJUMP,SLJIT_JUMP); i->a=q; }
    for(k=0;k<n;k++) lab_ref(&c[k]); dead=1; }
  else if(P.rewrite){ for(k=0;k<n;k++) lab_open(&c[k]);
    if(rn(2)){ i=add(K_JUMP,SLJIT_JUMP|SLJIT_REWRITABLE_JUMP); }
    else { int w=rn(2)?4:WS; ins t; memset(&t,0,sizeof t); gen_src(w,1,&t.a,&t.aw); gen_src(w,1,&t.b,&t.bw); i=add(K_CMP,(s32)rn(10)|(w==4?SLJIT_32:0)|SLJIT_REWRITABLE_JUMP); i->a=t.a;i->aw=t.aw;i->b=t.b;i->bw=t.bw; }
    i->lab=c[rn((u32)n)].id; set_sw(i,c[0].id,n); noflags(); for(k=0;k<n;k++) lab_ref(&c[k]); if((i->op&0xff)==SLJIT_JUMP&&i->kind==K_JUMP) dead=1; else { lab_open(&end); gen_block(1); } }
  else { g_if(); return; }
  depth++; if(!dead){ e_jump(&end); } else lab_open(&end); entry=S; (void)entry;
  for(k=0;k<n;k++){ lab_place(&c[k]); maybe_pad(); gen_block(sub_n(2)); if(!dead&&k<n-1) e_jump(&end); }
  lab_place(&end); depth--;
}
/* ---------- fast calls ---------- */
static void g_sub(void)
{
  olab over; struct subinfo*s; int r,q,mem; ins*i; u64 pl=permlock,t0=touched,f0=ftouched,v0=vtouched; int ol_=inloop; tst keep; int isin=insub; if(nsubs>=15||depth>=2||dead||insub>=2) return;
  begin(); lab_open(&over); i=add(K_JUMP,SLJIT_JUMP|rewr()); i->lab=over.id; lab_ref(&over); keep=S;
  s=&subs[nsubs]; s->lab=newlab(); touched=ftouched=vtouched=0; maybe_pad();
  weaken(); permlock=0; for(r=1;r<=NR;r++) if(!isreg(r)) S.rt[r]=T_U; for(r=1;r<=NR;r++) if(rn(3)==0) S.rt[r]=T_U;
  /* registers locked by an enclosing construct must not be touched */
  permlock=pl; for(r=1;r<=NR;r++) if(pl>>r&1) S.rt[r]=T_U;
  s->in=S;
  i=add(K_LABEL,0); i->lab=s->lab; label_pc[s->lab]=np-1; 
  r=0; mem=rn(2); if(c_scr+c_sav<4) mem=1; if(!mem){ int c[MAXREG],n=0; for(q=1;q<=NR;q++) if(isreg(q)&&!PLK(q)) c[n++]=q; if(n<3) mem=1; else r=c[rn((u32)n)]; }
  i=add(K_FENTER,SLJIT_FAST_ENTER); if(mem){ if(rn(2)&&locscr>=0&&nsubs<4){ i->d=SLJIT_MEM1(SLJIT_SP); i->dw=locscr+nsubs*WS; } else { i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+OFF_SCR+8*(48+(uw)nsubs)); } } else { i->d=r; settype(r,T_U); permlock|=(u64)1<<r; S.rk[r]=0; }
  { s32 d=i->d; sw dw=i->dw; int myidx=nsubs; nsubs++; insub++; inloop+=2; depth+=1; gen_block(sub_n(5)); depth-=1; inloop=ol_; insub=isin; 
    if(mem&&rn(3)==0&&!dead){ q=pick_reg(0,1,0,0); if(q){ i=add(K_OP1,SLJIT_MOV); i->d=q; i->a=d; i->aw=dw; settype(q,T_U); d=q; dw=0; } }
    i=add(K_FRET,SLJIT_FAST_RETURN); i->a=d; i->aw=dw; s=&subs[myidx]; if(dead) s->lab=-1; }
  permlock=pl; s->out=S; s->out.rt[0]=77; s->touched=touched; s->ftouched=ftouched; s->vtouched=vtouched; touched=t0|touched; ftouched|=f0; vtouched|=v0; dead=1; S=keep; maybe_pad();
  touched=t0; ftouched=f0; vtouched=v0;
  lab_place(&over);
}
static void g_fcall(void)
{
  struct subinfo*s; int r,q; ins*i; tst n; if(!nsubs){ if(rn(2)) g_sub(); if(!nsubs) return; } if(dead) return; s=&subs[rn((u32)nsubs)]; if(s->lab<0||s->touched&permlock) return;
  begin();
  if(s->out.rt[0]!=77) return; /* under construction */
  for(r=1;r<=NR;r++) if(PLK(r)&&s->in.rt[r]!=T_U&&s->in.rt[r]!=S.rt[r]) return;
  q=0; if(P.ijmp&&rn(4)==0){ q=pick_reg(0,1,1,0); if(q&&s->in.rt[q]!=T_U) q=0; }
  fixup(&s->in); 
  if(q){ i=add(K_OPADDR,SLJIT_MOV_ADDR); i->d=q; i->lab=s->lab; settype(q,T_U); i=add(K_IJUMP,SLJIT_FAST_CALL); i->a=q; i->lab=-1; }
  else { i=add(K_FCALL,SLJIT_FAST_CALL|rewr()); i->lab=s->lab; }
  n=S; for(r=1;r<=NR;r++) if(s->touched>>r&1){ n.rt[r]=s->out.rt[r]; n.rk[r]=0; if(n.rt[r]==T_LB) n.rt[r]=T_U; }
  for(r=1;r<=NFR;r++) if(s->ftouched>>r&1){ n.ft[r]=s->out.ft[r]; n.fx[r]=1; }
  for(r=0;r<MAXREG;r++) if(s->vtouched>>r&1) n.vs[r]=s->out.vs[r];
  S=n; touched|=s->touched; ftouched|=s->ftouched; vtouched|=s->vtouched; noflags();
}
/* ---------- C calls ---------- */
static void g_call(void)
{
  int id=rn(NCALLEE),k,ni=0,nf=0,r,form; s32 ty=callees[id].types,t; ins*i; sw faddr=(sw)callees[id].fn; if(dead) return; begin();
  for(r=1;r<=NR;r++) if(PLK(r)&&r<SLJIT_R0+c_scr) return;
  t=ty>>4; for(k=0;k<4;k++){ int a=(t>>(k*4))&7; if(!a) break; if(a>=SLJIT_ARG_TYPE_F64) nf++; else ni++; }
  if(c_scr<1||ni>c_scr) return; if((nf||(ty&15)>=SLJIT_ARG_TYPE_F64)&&!has_fpu) return; if(nf>c_fscr||((ty&15)>=4&&c_fscr<1)) return; 
  for(k=0;k<nf;k++) if(!usefreg(SLJIT_FR0+k)) return;
  if((ty&15)>=4&&!usefreg(SLJIT_FR0)) return;
  ni=nf=0; for(k=0;k<4;k++){ int a=(t>>(k*4))&7; if(!a) break;
    if(a>=SLJIT_ARG_TYPE_F64){ int f=SLJIT_FR0+nf++,ft=a==SLJIT_ARG_TYPE_F32?F_32:F_64; if(S.ft[f]!=ft||S.fx[f]){ i=add(K_FSET,ft==F_32?SLJIT_32:0); i->d=f; i->bits=ft==F_32?rf32():rf64(); if(ft==F_32){ if((i->bits&0x7fffffff)>0x7f800000) i->bits=0; } else if((i->bits&0x7fffffffffffffffULL)>0x7ff0000000000000ULL) i->bits=0; setf(f,ft,0); } }
    else { int g=SLJIT_R0+ni++,wt=a==SLJIT_ARG_TYPE_32?T_I:T_W; if(!typeok(g,wt)){ if(wt==T_I&&!is32arch()) e_movimm32(g,rimm32()); else e_movimm(g,rimmw()); } lock|=(u64)1<<g; } }
  form=rn(4); r=0; if(form==1){ r=pick_reg(0,1,1,0); if(r) e_movimm(r,faddr); else form=0; }
  i=0; if(form==2){ int o=r_scr(); i=add(K_OP1,SLJIT_MOV); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+(uw)o); i->a=SLJIT_IMM; i->aw=faddr; i=add(K_CALL,SLJIT_CALL); i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+(uw)o); }
  else { i=add(K_CALL,SLJIT_CALL); if(form==1) i->a=r; else { i->a=SLJIT_IMM; i->aw=faddr; } }
  i->x=id; i->y=form==3; i->c=ty;
  for(r=1;r<=NR;r++) if(r<SLJIT_R0+c_scr) { if(S.rt[r]!=T_U||1){ S.rt[r]=T_U; S.rk[r]=0; touched|=(u64)1<<r; } }
  for(r=1;r<=NFR;r++) if(r<SLJIT_FR0+c_fscr) setf(r,F_U,0);
  memset(S.vs,0,sizeof S.vs); noflags(); vtouched=~(u64)0;
  switch(ty&15){ case 0: break; case SLJIT_ARG_TYPE_32: settype(SLJIT_R0,T_I); if(pc(P.logp)) logreg(SLJIT_R0); break; case SLJIT_ARG_TYPE_F64: setf(SLJIT_FR0,F_64,0); break; case SLJIT_ARG_TYPE_F32: setf(SLJIT_FR0,F_32,0); break; default: settype(SLJIT_R0,T_W); if(pc(P.logp)) logreg(SLJIT_R0); }
}
/* ---------- constants ---------- */
static sw const_value(s32 op,int reg){ switch(op&0xff){ case SLJIT_MOV_U8: return reg?(sw)rn(512)-256:(sw)rn(256); case SLJIT_MOV: return rimmw(); default: return rimm32(); } }
static void g_const(void)
{
  static const s32 o[]={SLJIT_MOV,SLJIT_MOV,SLJIT_MOV_S32,SLJIT_MOV32,SLJIT_MOV_U8,SLJIT_MOV32_U8}; s32 op=o[rn(6)],d; sw dw; ins*i; int sz; if(nconst>=1900) return; begin();
  sz=(op&0xff)==SLJIT_MOV_U8?1:op==SLJIT_MOV32?4:WS; if(pc(P.memp)) gen_mem(sz,&d,&dw); else { d=pick_dst(); dw=0; if(!d) return; }
  i=add(K_CONST,op); i->d=d; i->dw=dw; i->x=nconst; constop[nconst]=op; constv[nconst]=const_value(op,d<SLJIT_IMM); i->y=d<SLJIT_IMM; nconst++;
  if(d<SLJIT_IMM){ settype(d,(op==SLJIT_MOV32||op==SLJIT_MOV32_U8)?T_I:T_W); maybe_log(d); }
}
/* ---------- misc ---------- */
static void g_prefetch(void){ s32 a; sw aw; ins*i; begin(); gen_mem(rn(2)?1:8,&a,&aw); i=add(K_SRC,SLJIT_PREFETCH_L1+(s32)rn(4)); i->a=a; i->aw=aw; }
static void g_getra(void){ ins*i; int r; sw sl=(sw)((uw)buf+OFF_SCR+SZ_SCR-8); begin(); i=add(K_GETRA,SLJIT_GET_RETURN_ADDRESS); if(rn(2)){ i->d=SLJIT_MEM0(); i->dw=sl; return; } r=pick_dst(); if(!r){ np--; return; } i->d=r; settype(r,T_U); i=add(K_OP1,SLJIT_MOV_P); i->d=SLJIT_MEM0(); i->dw=sl; i->a=r; }
static void g_locb(void){ ins*i; s32 d; sw dw; int r; begin(); if(!nwin) return; if(rn(4)==0){ struct win*w=&wins[rn((u32)nwin)]; sw off=rn(2)?w->off:offimm(); int o=r_scr(); i=add(K_LOCB,0); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+(uw)o); i->aw=off; noflags(); r=pick_reg(0,1,0,1); if(!r) return; i=add(K_OP1,SLJIT_MOV); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+(uw)o); settype(r,T_LB); S.rv[r]=off; return; }
  r=pick_reg(0,1,0,1); if(!r) return; d=r; dw=0; i=add(K_LOCB,0); i->d=d; i->dw=dw; i->aw=rn(2)?wins[rn((u32)nwin)].off+(sw)rn(16):offimm(); settype(r,T_LB); S.rv[r]=i->aw; noflags(); }
/* read only buffers behind aligned labels */
static void g_robuf(void)
{
  olab over; int k,n,fwd; ins*i,*q; if(depth>=3||dead||nrob>50) return; begin(); lab_open(&over);
  if(nrob==0||rn(3)==0){
    i=add(K_JUMP,SLJIT_JUMP); i->lab=over.id; lab_ref(&over); dead=1; maybe_pad(); if(rn(4)==0) gen_block(1);
    n=(int)rn(4); if(nrob+n>60) n=0; q=add(K_ROBUF,(s32)rn(5)); q->y=n; q->x=nrob; q->lab=newlab(); label_pc[q->lab]=np-1; for(k=1;k<n;k++) newlab();
    for(k=0;k<n;k++){ robuf*b=&robs[nrob++]; b->lab=q->lab+k; b->size=1+(int)rn(rn(3)?64:900); if(rn(2)) b->size=(b->size+7)&~7; b->off=robused; robused+=b->size; if(robused>60000){ fprintf(stderr,"rob\n"); exit(9);} }
    lab_place(&over);
  } else nlab--;
  fwd=0; (void)fwd;
  if(nrob){ robuf*b=&robs[rn((u32)nrob)]; int r=pick_reg(0,1,1,1),d,sz; s32 op; sw off; static const s32 o[]={SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U8,SLJIT_MOV32_U8,SLJIT_MOV_U16,SLJIT_MOV}; if(!r) return; lock|=(u64)1<<r;
    op=o[rn(UNAL?6:4)]; sz=mszop(op); if(b->size<sz){ op=SLJIT_MOV_U8; sz=1; } off=(sw)rn((u32)(b->size-sz+1)); d=pick_dst(); if(!d) return;
    if(rn(3)==0){ e_movimm(r,off); i=add(K_OPADDR,SLJIT_ADD_ABS_ADDR); i->d=r; i->lab=b->lab; settype(r,T_U); noflags(); off=0; } else { i=add(K_OPADDR,SLJIT_MOV_ABS_ADDR); i->d=r; i->lab=b->lab; settype(r,T_U); }
    i=add(K_OP1,op); i->d=d; i->a=SLJIT_MEM1(r); i->aw=off; settype(d,(op&SLJIT_32)?T_I:T_W); maybe_log(d); }
}
/* ---------- SIMD ---------- */
static int vmax; /* log2 of the largest register */
static int pick_vreg(int minsz){ int c[MAXREG],n=0,r; for(r=1;r<MAXREG&&r<=NVR;r++) if(isvreg(r)&&S.vs[r]>=minsz&&(!vpairs||minsz<3||S.vs[r]==minsz)) c[n++]=r; return n?c[rn((u32)n)]:0; } /* with pairs the order of the halves is not specified */
static void setv(int r,int sz){ S.vs[r]=(u8)sz; vtouched|=(u64)1<<r; }
#define SREG(n) ((n)<<12)
static int pick_vsz(void){ int s=4; switch(rn(5)){ case 0: s=3; break; case 1: case 2: s=vmax; break; } return s; }
static void gen_vmem(int size,int align,s32*a,sw*aw){ int loc; sw t=pick_target(size,align,2,&loc); mem_operand_for(t,loc,a,aw); }
static s32 velem(int maxe){ s32 e=(s32)rn((u32)(maxe<3?maxe+1:4)); s32 t=e<<18; if(e>=2&&rn(2)) t|=SLJIT_SIMD_FLOAT; return t; }
static void vloadmem(int r,int sz){ s32 ty=SREG(sz)|SLJIT_SIMD_ELEM_8; ins*i; if(sljit_emit_simd_mov(probe,ty|SLJIT_SIMD_TEST,r,SLJIT_MEM0(),0)) return; i=add(K_SMOV,ty); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_VEC+(rn(SZ_VEC-64)&~7u)); setv(r,sz); }
static int need_vreg(int sz){ int r=pick_vreg(sz); if(r) return r; r=pick_vreg(0); if(!r) return 0; vloadmem(r,sz); return S.vs[r]>=sz&&(!vpairs||S.vs[r]==sz)?r:0; }
static void g_smov(void)
{
  int sz=pick_vsz(),r,st=rn(2),al=0; s32 ty=SREG(sz)|velem(sz),a; sw aw=0; ins*i; begin();
  if(rn(2)){ al=(int)rn((u32)sz+1); if(al>6) al=6; ty|=al<<24; }
  if(st) ty|=SLJIT_SIMD_STORE; r=st?need_vreg(sz):pick_vreg(0); if(!r) return;
  if(rn(4)==0){ int q=st?pick_vreg(0):need_vreg(sz); if(!q) return; a=q; ty&=~(0x3f<<24); } else gen_vmem(1<<sz,1<<al,&a,&aw);
  if(sljit_emit_simd_mov(probe,ty|SLJIT_SIMD_TEST,r,a,aw)) return;
  i=add(K_SMOV,ty); i->d=r; i->a=a; i->aw=aw; if(!st) setv(r,sz); else if(a<SLJIT_IMM) setv(a,sz);
}
static void g_srep(void)
{
  int sz=pick_vsz(),r,e; s32 ty=SREG(sz)|velem(sz-1),a; sw aw=0; ins*i; begin(); e=(ty>>18)&7; r=pick_vreg(0); if(!r||e>=sz) return;
  if(rn(3)==0){ a=SLJIT_IMM; aw=(ty&SLJIT_SIMD_FLOAT)||(WS==4&&e==3)?0:rn(4)?rimmw():0; }
  else if(ty&SLJIT_SIMD_FLOAT){ if(pc(50)){ gen_fmem(1<<e,1,&a,&aw); } else { a=pick_freg(e==2?F_32:F_64,0,0); if(!a||S.fx[a]) return; } }
  else if(rn(2)) gen_mem(1<<e,&a,&aw); else { if(WS==4&&e==3) return; a=need_reg(T_W); if(!a) return; }
  if(sljit_emit_simd_replicate(probe,ty|SLJIT_SIMD_TEST,r,a,aw)) return;
  i=add(K_SREP,ty); i->d=r; i->a=a; i->aw=aw; setv(r,sz); noflags();
}
static void g_slane(void)
{
  int sz=pick_vsz(),r,e,st=rn(2),lane,tr; s32 ty=SREG(sz)|velem(sz-1),a; sw aw=0; ins*i; begin(); e=(ty>>18)&7; if(e>=sz) return; 
  if(st) ty|=SLJIT_SIMD_STORE; else if(rn(2)) ty|=SLJIT_SIMD_LANE_ZERO;
  r=(ty&SLJIT_SIMD_LANE_ZERO)?pick_vreg(0):need_vreg(sz); if(!r) return; lane=(int)rn(1u<<(sz-e));
  if(ty&SLJIT_SIMD_FLOAT){ if(pc(40)) gen_fmem(1<<e,1,&a,&aw); else if(st){ a=pick_freg(0,1,0); if(!a) return; } else { a=pick_freg(e==2?F_32:F_64,0,0); if(!a||S.fx[a]) return; } tr=0; }
  else { if(e<=2&&rn(2)) ty|=SLJIT_32; if(st&&rn(2)) ty|=SLJIT_SIMD_LANE_SIGNED; tr=(ty&SLJIT_32)?T_I:T_W;
    if(pc(40)) gen_mem(1<<e,&a,&aw); else { if(WS==4&&e==3) return; if(st){ a=pick_dst(); if(!a) return; } else if(rn(4)==0){ a=SLJIT_IMM; aw=tr==T_I?rimm32():rimmw(); if(e==3&&WS==4) aw=0; } else { a=need_reg(tr); if(!a) return; } } }
  if((S.vs[r]<sz||(vpairs&&S.vs[r]!=sz))&&!(ty&SLJIT_SIMD_LANE_ZERO)) return;
  if(sljit_emit_simd_lane_mov(probe,ty|SLJIT_SIMD_TEST,r,lane,a,aw)) return;
  i=add(K_SLANE,ty); i->d=r; i->x=lane; i->a=a; i->aw=aw; noflags(); if(!st) setv(r,sz); else if(a<SLJIT_IMM){ if(ty&SLJIT_SIMD_FLOAT) setf(a,e==2?F_32:F_64,0); else { settype(a,tr); maybe_log(a);} }
}
static void g_slrep(void)
{ int sz=pick_vsz(),r,q,e,lane; s32 ty=SREG(sz)|velem(sz-1); ins*i; begin(); e=(ty>>18)&7; if(e>=sz) return; q=need_vreg(sz); r=pick_vreg(0); if(!q||!r) return; lane=(int)rn(1u<<(sz-e)); if(sljit_emit_simd_lane_replicate(probe,ty|SLJIT_SIMD_TEST,r,q,lane)) return; i=add(K_SLREP,ty); i->d=r; i->a=q; i->x=lane; setv(r,sz); noflags(); }
static void g_sext(void)
{ int sz=pick_vsz(),r,e,e2; s32 ty=SREG(sz),a; sw aw=0; ins*i; begin(); 
  if(rn(4)==0){ e=2; e2=3; ty|=SLJIT_SIMD_FLOAT; } else { e=(int)rn(3); e2=e+1+(int)rn((u32)(3-e)); if(rn(2)) ty|=SLJIT_SIMD_EXTEND_SIGNED; } if(e2>=sz) return; ty|=e<<18|e2<<24;
  r=pick_vreg(0); if(!r) return; if(rn(2)){ a=need_vreg(sz); if(!a) return; } else { int n=(1<<sz)>>(e2-e); gen_vmem(n,rn(2)?1<<e:1,&a,&aw); }
  if(sljit_emit_simd_extend(probe,ty|SLJIT_SIMD_TEST,r,a,aw)) return;
  i=add(K_SEXT,ty); i->d=r; i->a=a; i->aw=aw; setv(r,sz); noflags(); }
static void g_ssign(void)
{ int sz=pick_vsz(),r; s32 ty=SREG(sz)|velem(sz-1)|SLJIT_SIMD_STORE,d; sw dw; ins*i; begin(); if(((ty>>18)&7)>=sz) return; if(rn(2)) ty|=SLJIT_32; r=need_vreg(sz); if(!r) return; gen_dst((ty&SLJIT_32)?4:WS,&d,&dw); if(S.vs[r]<sz||(vpairs&&S.vs[r]!=sz)) return; if(sljit_emit_simd_sign(probe,ty|SLJIT_SIMD_TEST,r,d,dw)) return; i=add(K_SSIGN,ty); i->d=d; i->dw=dw; i->a=r; noflags(); if(d<SLJIT_IMM){ settype(d,(ty&SLJIT_32)?T_I:T_W); maybe_log(d); } }
static void g_sop2(void)
{
  int sz=pick_vsz(),d,r,k=1+(int)rn(4),al=0; s32 ty,a; sw aw=0; ins*i; begin();
  if(k==SLJIT_SIMD_OP2_SHUFFLE){ ty=SREG(sz)|k; r=need_vreg(sz); if(!r) return; { s32 m=SREG(sz)|SLJIT_SIMD_ELEM_8; int q=pick_vreg(0),p=pick_vreg(0); if(!q||!p||q==p||q==r||p==r) return;
      /* in range indices: random bytes AND (size - 1) */
      if(sljit_emit_simd_replicate(probe,m|SLJIT_SIMD_TEST,p,SLJIT_IMM,(1<<sz)-1)||sljit_emit_simd_op2(probe,m|SLJIT_SIMD_OP2_AND|SLJIT_SIMD_TEST,q,q,p,0)||sljit_emit_simd_op2(probe,ty|SLJIT_SIMD_TEST,r,r,q,0)) return;
      if(vpairs?S.vs[q]!=sz:S.vs[q]<sz) vloadmem(q,sz); if(S.vs[q]<sz||(vpairs&&S.vs[q]!=sz)) return; i=add(K_SREP,m); i->d=p; i->a=SLJIT_IMM; i->aw=(1<<sz)-1; setv(p,sz);
      i=add(K_SOP2,m|SLJIT_SIMD_OP2_AND); i->d=q; i->a=q; i->b=p; setv(q,sz); a=q; d=rn(2)?pick_vreg(0):rn(2)?r:q; i=add(K_SOP2,ty); i->d=d; i->a=r; i->b=a; setv(d,sz); noflags(); return; } }
  ty=SREG(sz)|velem(sz)|k; if(rn(2)){ al=(int)rn((u32)sz+1); } 
  d=pick_vreg(0); r=need_vreg(sz); if(!d||!r) return; if(rn(2)){ a=need_vreg(sz); if(!a) return; } else { ty|=al<<24; gen_vmem(1<<sz,1<<al,&a,&aw); } if(S.vs[r]<sz||(vpairs&&S.vs[r]!=sz)) return;
  if(sljit_emit_simd_op2(probe,ty|SLJIT_SIMD_TEST,d,r,a,aw)) return; i=add(K_SOP2,ty); i->d=d; i->a=r; i->b=a; i->bw=aw; setv(d,sz); noflags();
}
static void vobserve(void){ int r=pick_vreg(1); ins*i; s32 ty; if(!r||inloop) return; ty=SREG(S.vs[r])|SLJIT_SIMD_STORE; if(logp_+64>SZ_LOG) return; if(sljit_emit_simd_mov(probe,ty|SLJIT_SIMD_TEST,r,SLJIT_MEM0(),0)) return; i=add(K_SMOV,ty); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_LOG+(uw)logp_); logp_+=64; }
/* ---------- top level ---------- */
static void g_ret(int early)
{
  ins*i; ins t; memset(&t,0,sizeof t); begin(); 
  switch(c_ret){
  case 0: i=add(K_RET,0); break;
  case SLJIT_ARG_TYPE_F64: case SLJIT_ARG_TYPE_F32: { int x; int ty=c_ret==SLJIT_ARG_TYPE_F32?F_32:F_64; gen_fsrc(ty,&t.a,&t.aw,&x); i=add(K_RET,SLJIT_MOV_F64|(ty==F_32?SLJIT_32:0)); i->a=t.a; i->aw=t.aw; break; }
  default: { static const s32 ow[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32,SLJIT_MOV}, o3[]={SLJIT_MOV32,SLJIT_MOV32,SLJIT_MOV32_U8,SLJIT_MOV32_S8,SLJIT_MOV32_U16,SLJIT_MOV32_S16};
    s32 op=c_ret==SLJIT_ARG_TYPE_P?SLJIT_MOV_P:c_ret==SLJIT_ARG_TYPE_32?o3[rn(6)]:ow[rn(8)]; int w=c_ret==SLJIT_ARG_TYPE_32?4:WS; if(pc(P.memp)) gen_mem(mszop(op),&t.a,&t.aw); else if(rn(3)==0){ t.a=SLJIT_IMM; t.aw=w==4?rimm32():rimmw(); if(op==SLJIT_MOV_U32||op==SLJIT_MOV_S32) t.aw=rimm32(); } else { int ty=w==4?T_I:T_W; if(op==SLJIT_MOV_U32||op==SLJIT_MOV_S32) ty=rn(2)&&WS==8?T_I:T_W; t.a=need_reg(ty); if(!t.a) gen_mem(mszop(op),&t.a,&t.aw); }
    i=add(K_RET,op); i->a=t.a; i->aw=t.aw; } }
  (void)early; dead=1; noflags();
}
static const int wkinds[]={K_OP0,K_OP1,K_OP2,K_OP2U,K_OP2R,K_SHINTO,K_OPFLAGS,K_SELECT,K_FOP1,K_FOP2,K_FOP2R,K_FSET,K_FCOPY,K_FCMP,K_FSELECT,K_MEM,K_MEMU,K_FMEM,K_FMEMU,K_LOCB,K_CONST,K_IF,K_LOOP,K_SWITCH,K_SUB,K_FCALL,K_CALL,K_PAD,K_ROBUF,K_PREFETCH,K_GETRA,K_RET,K_SMOV,K_SREP,K_SLANE,K_SLREP,K_SEXT,K_SSIGN,K_SOP2,K_FLAGLAB};
static void gen_block(int n)
{
  int k,tot=0,j; static int cum[64]; int nk=(int)(sizeof wkinds/sizeof*wkinds);
  for(k=0;k<n&&stmts>0;k++){ int x; if(np>MAXINS-600||nlab>MAXLAB-64){ stmts=0; break; } stmts--; tot=0; for(j=0;j<nk;j++){ tot+=P.w[wkinds[j]]; cum[j]=tot; } x=(int)rn((u32)tot); for(j=0;j<nk&&cum[j]<=x;j++); 
    switch(wkinds[j]){
    case K_OP0: g_op0(); break; case K_OP1: g_op1(); break; case K_OP2: g_op2(); break; case K_OP2U: g_op2u(); break; case K_OP2R: g_op2r(); break; case K_SHINTO: g_shinto(); break;
    case K_OPFLAGS: case K_SELECT: if(gz||gvar>=0) observe(); else g_op2u(); break;
    case K_FOP1: g_fop1(); break; case K_FOP2: g_fop2(); break; case K_FOP2R: g_fop2r(); break; case K_FSET: g_fset(); break; case K_FCOPY: g_fcopy(); break; case K_FCMP: g_fcmpflags(); break; case K_FSELECT: if(has_fpu){ if(gz||gvar>=0) g_fselect(); else { g_op2u(); g_fselect(); } } break;
    case K_MEM: g_mem(); break; case K_MEMU: g_memu(); break; case K_FMEM: g_fmem(); break; case K_FMEMU: g_fmemu(); break; case K_LOCB: g_locb(); break; case K_CONST: g_const(); break;
    case K_IF: if(!dead||rn(8)==0) g_if(); break; case K_LOOP: g_loop(); break; case K_SWITCH: g_switch(); break; case K_SUB: g_sub(); break; case K_FCALL: g_fcall(); break; case K_CALL: g_call(); break; case K_PAD: rnd_pad(); break; case K_ROBUF: g_robuf(); break;
    case K_PREFETCH: g_prefetch(); break; case K_GETRA: g_getra(); break; case K_RET: if(depth>0&&!dead&&rn(4)==0) g_ret(1); break;
    case K_SMOV: g_smov(); break; case K_SREP: g_srep(); break; case K_SLANE: g_slane(); break; case K_SLREP: g_slrep(); break; case K_SEXT: g_sext(); break; case K_SSIGN: g_ssign(); break; case K_SOP2: g_sop2(); break; case K_FLAGLAB: if(depth<3&&!dead) g_flaglab(); break;
    }
    if(has_simd&&P.vecs&&rn(4)==0) vobserve();
    if(dead&&depth>0&&rn(3)) break;
  }
}
/* operator profiles */
static void context(void)
{
  int tot,k; 
  c_opt=0;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
  if(rn(3)==0) c_opt|=SLJIT_ENTER_USE_VEX;
#endif
  switch(rn(5)){ case 0: c_scr=1+(int)rn(4); c_sav=(int)rn(4); break; case 1: c_sav=(int)rn((u32)NSR+1); c_scr=NR-c_sav; break; case 2: c_scr=NR-(int)rn(3); c_sav=NR-c_scr; break; case 3: c_sav=NSR; c_scr=1+(int)rn((u32)(NR-NSR)); break; default: c_scr=1+(int)rn((u32)NR); c_sav=(int)rn((u32)NSR+1); }
  if(c_sav>NSR) c_sav=NSR; if(c_scr+c_sav>NR) c_scr=NR-c_sav; if(c_scr<1){ c_scr=1; if(c_sav+1>NR) c_sav=NR-1; }
  c_fscr=c_fsav=c_vscr=c_vsav=0;
  if(has_fpu&&(P.floats||P.vecs)){ c_fsav=(int)rn((u32)NFSR+1); c_fscr=1+(int)rn((u32)(NFR-c_fsav)); if(rn(3)==0) c_fscr=NFR-c_fsav; if(P.vecs&&c_fscr+c_fsav<8&&!SEPV) c_fscr=NFR-c_fsav; }
#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
  if(P.vecs&&has_simd){ c_vsav=(int)rn((u32)NVSR+1); c_vscr=NVR-c_vsav; if(rn(2)) c_vscr=1+(int)rn((u32)c_vscr); }
#else
  if(P.vecs&&has_simd){ c_vscr=c_fscr; c_vsav=c_fsav; }
#endif
  switch(rn(8)){ case 0: c_loc=0; break; case 1: c_loc=(int)rn(64); break; case 2: c_loc=(int)rn(600); break; case 3: { static const int t[]={128,256,512,1024,2048,4096,8192,16384,32768,65536}; c_loc=t[rn(10)]+(int)rn(129)-64; break; } case 4: c_loc=(int)rn(9000); break; case 5: c_loc=P.bigloc?(int)rn(300000):(int)rn(4096); break; case 6: c_loc=P.bigloc&&rn(4)==0?SLJIT_MAX_LOCAL_SIZE-(int)rn(64):(int)rn(256); break; default: c_loc=64+(int)rn(256); }
  if(c_loc<0) c_loc=0;
  nwin=0; locscr=-1;
  { int lim=c_loc; if(lim>=64){ locscr=(lim-48)&~15; lim=locscr; } /* the last bytes hold return addresses */
    if(lim>=16){ int n=1+(int)rn(3); for(k=0;k<n;k++){ int sz=16<<rn(2),off,j,bad=0; if(sz>lim) sz=16; switch(rn(4)){ case 0: off=0; break; case 1: off=lim-sz; break; case 2: off=(int)rn((u32)(lim-sz+1)); break; default: { static const int t[]={128,256,512,1024,2048,4096,16384,32768,65536,131072}; off=t[rn(10)]-(int)rn(80); if(off<0||off>lim-sz) off=(int)rn((u32)(lim-sz+1)); } }
        off&=~15; for(j=0;j<nwin;j++) if(off<wins[j].off+wins[j].size+16&&wins[j].off<off+sz+16) bad=1; if(bad||off+sz>lim) continue; wins[nwin].off=off; wins[nwin].size=sz; nwin++; } } 
    if(nwin==0&&locscr>=0&&0) locscr=-1; }
  c_ret=(int)rn(has_fpu&&(P.floats)?6:4); if(c_ret>=4&&c_fscr+c_fsav<1) c_ret=1;
  /* arguments */
  c_args=c_ret; c_nargs=(int)rn(5); tot=0;
  for(k=0;k<c_nargs;k++){ int t=1+(int)rn(3),isr=rn(2); if(isr?k+1>c_scr:tot+1>c_sav){ isr=!isr; if(isr?k+1>c_scr:tot+1>c_sav){ c_nargs=k; break; } } if(!isr) tot++; c_argt[k]=(u8)t; c_argr[k]=(u8)isr; c_args|=(t|(isr?SLJIT_ARG_TYPE_SCRATCH_REG:0))<<(4*(k+1)); }
}
static void put_const_pool(void){}
void generate(void)
{
  int r,k,ns; ins*i; np=0; nlab=0; nconst=0; nrob=0; robused=0; noflags(); lock=permlock=flock=vlock=0; dead=0; logp_=0; scrp=ctrp=0; depth=insub=inloop=0; touched=ftouched=vtouched=0; nsubs=0; memset(&S,0,sizeof S); memset(subs,0,sizeof subs); nswitch=0; (void)put_const_pool; (void)logp_;
  vpairs=has_simd&&sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS); context();
  if(probe) sljit_free_compiler(probe); probe=sljit_create_compiler(NULL);
  sljit_set_context(probe,c_opt,c_args,c_scr|SLJIT_ENTER_FLOAT(c_fscr)|SLJIT_ENTER_VECTOR(c_vscr),c_sav|SLJIT_ENTER_FLOAT(c_fsav)|SLJIT_ENTER_VECTOR(c_vsav),c_loc);
  vmax=4; if(has_simd&&P.vecs){ r=pick_vreg(0); if(r&&!sljit_emit_simd_mov(probe,SREG(5)|SLJIT_SIMD_TEST,r,SLJIT_MEM0(),0)) vmax=5; if(r&&!sljit_emit_simd_mov(probe,SREG(6)|SLJIT_SIMD_TEST,r,SLJIT_MEM0(),0)) vmax=6; }
  /* arguments */
  ns=0; for(k=0;k<c_nargs;k++){ int g=c_argr[k]?SLJIT_R0+k:SLJIT_S0-ns++; S.rt[g]=(u8)(c_argt[k]==SLJIT_ARG_TYPE_32&&!is32arch()?T_I:T_W); }
  /* prologue */
  for(r=1;r<=NR;r++){ int m; if(!isreg(r)||S.rt[r]!=T_U) continue; begin(); m=rn(10); if(m<5){ i=add(K_OP1,SLJIT_MOV); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_IN+8*rn(32)); settype(r,T_W); } else if(m<7){ i=add(K_OP1,SLJIT_MOV32); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_IN+8*rn(32)); settype(r,T_I); } else if(m<8) e_movimm(r,rimmw()); }
  if(P.floats) for(r=1;r<=NFR;r++) if(usefreg(r)&&rn(4)){ int s=rn(2); i=add(K_FOP1,SLJIT_MOV_F64|(s?SLJIT_32:0)); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_FIN+(s?0x100+4*rn(64):8*rn(32))); setf(r,s?F_32:F_64,0); }
  if(has_simd&&P.vecs) for(r=1;r<MAXREG&&r<=NVR;r++) if(isvreg(r)&&rn(2)) vloadmem(r,rn(3)?vmax:4);
  for(k=0;k<nwin;k++){ int o; for(o=0;o<wins[k].size;o+=WS){ i=add(K_OP1,SLJIT_MOV); i->d=SLJIT_MEM1(SLJIT_SP); i->dw=wins[k].off+o; i->a=SLJIT_IMM; i->aw=rimmw(); } }
  stmts=P.nins*2; gen_block(P.nins);
  while(nrob==0&&P.w[K_ROBUF]&&!dead&&rn(2)){ g_robuf(); break; }
  permlock=0; noflags(); dead=0;
  /* epilogue */
  for(r=1;r<=NR;r++) if(isreg(r)&&(S.rt[r]==T_W||S.rt[r]==T_I)){ i=add(K_OP1,S.rt[r]==T_W?SLJIT_MOV:SLJIT_MOV32); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+OFF_OUT+8*(uw)r); i->a=r; }
  for(r=1;r<=NFR;r++) if(usefreg(r)&&S.ft[r]!=F_U){ i=add(K_FOP1,SLJIT_MOV_F64|(S.ft[r]==F_32?SLJIT_32:0)); i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+OFF_FOUT+8*(uw)r); i->a=r; }
  if(has_simd&&P.vecs) for(r=1;r<MAXREG&&r<=NVR;r++) if(isvreg(r)&&S.vs[r]){ s32 ty=SREG(S.vs[r])|SLJIT_SIMD_STORE; if(sljit_emit_simd_mov(probe,ty|SLJIT_SIMD_TEST,r,SLJIT_MEM0(),0)) continue; i=add(K_SMOV,ty); i->d=r; i->a=SLJIT_MEM0(); i->aw=(sw)((uw)buf+OFF_VOUT+64*(uw)r); }
  begin(); r=0; for(k=1;k<=NR;k++) if(isreg(k)&&S.rt[k]!=T_U&&c_ret!=0&&0) r=k;
  { int o=0,q=pick_reg(0,0,0,0); for(k=0;k<nwin;k++){ int j; for(j=0;j<wins[k].size;j+=WS){ i=add(K_OP1,SLJIT_MOV); i->d=rn(2)?SLJIT_MEM0():q; i->a=SLJIT_MEM1(SLJIT_SP); i->aw=wins[k].off+j; if(i->d==q){ settype(q,T_W); i=add(K_OP1,SLJIT_MOV); i->a=q; } i->d=SLJIT_MEM0(); i->dw=(sw)((uw)buf+OFF_LOUT+(uw)o); o+=WS; } } }
  g_ret(0);
}
