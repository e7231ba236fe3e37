#include "eng.h"
static const char*kn[]={"none","op0","op1","op2","op2u","op2r","shinto","src","getra","fop1","fop2","fop2r","fset","fcopy","label","jump","cmp","fcmp","op2cmpz","opflags","select","fselect","mem","memu","fmem","fmemu","locb","const","opaddr","ijump","fcall","fenter","fret","call","pad","ret","custom","setflags","aligned","smov","srep","slane","slrep","sext","ssign","sop2","atomic","prefetch","robuf","if","loop","sub","switch","flaglab"};
static void opnd(FILE*f,const char*n,s32 a,sw w){ if(!a) return; if(a==SLJIT_IMM) fprintf(f," %s=#0x%llx",n,(unsigned long long)(uw)w); else if(a&SLJIT_MEM) fprintf(f," %s=[r%d+r%d,0x%llx]",n,a&0x7f,(a>>8)&0x7f,(unsigned long long)(uw)w); else fprintf(f," %s=%d(0x%x)",n,a&0x7f,a); }
void prog_print(FILE*f)
{ int k; fprintf(f,"buf=%p scr=%d sav=%d fscr=%d fsav=%d loc=%d opt=%x args=%x\n",(void*)buf,c_scr,c_sav,c_fscr,c_fsav,c_loc,(unsigned)c_opt,(unsigned)c_args);
  for(k=0;k<np;k++){ ins*i=&prog[k]; if(i->kind==K_PAD&&!i->x) continue; fprintf(f,"%4d %-8s op=0x%x",k,kn[i->kind],(unsigned)i->op); opnd(f,"d",i->d,i->dw); opnd(f,"a",i->a,i->aw); opnd(f,"b",i->b,i->bw); opnd(f,"c",i->c,i->cw); if(i->lab>=0) fprintf(f," L%d",i->lab); if(i->x||i->y) fprintf(f," x=%d y=%d",i->x,i->y); if(i->bits) fprintf(f," bits=%llx",(unsigned long long)i->bits); fputc('\n',f); } }
