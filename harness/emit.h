struct emit_opt { u64 seed; int serial; int verb; s32 scr,sav; };
extern uw lab_addr[],lab_abs[],jump_addr[],const_addr[]; extern sw exec_off; extern uw code_size; extern u8 jump_rew[]; extern long emit_counts[]; extern long n_serial,n_api,n_reject,n_mutant; extern int emit_damage; extern char emit_err[]; extern FILE*verb_out; extern int emit_nconst;
int emit_program(struct emit_opt*o,struct sljit_compiler**out);
void collect(struct sljit_compiler*c);
