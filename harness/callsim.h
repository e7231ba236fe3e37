#ifndef CALLSIM_H
#define CALLSIM_H
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef sljit_sw sw; typedef sljit_uw uw; typedef sljit_s32 s32;
typedef u64 callerfn(void*f,u64*a);
static inline u64 toW(sw v){ return (u64)(uw)v; } static inline sw fromW(u64 v){ return (sw)(uw)v; }
static inline u64 toL(s32 v){ return (u64)(int64_t)v; } static inline s32 fromL(u64 v){ return (s32)(u32)v; }
static inline u64 toD(double d){ u64 v; memcpy(&v,&d,8); return v; } static inline double fromD(u64 v){ double d; memcpy(&d,&v,8); return d; }
static inline u64 toF(float d){ u32 v; memcpy(&v,&d,4); return v; } static inline float fromF(u64 v){ u32 u=(u32)v; float d; memcpy(&d,&u,4); return d; }
#if defined __s390x__ || defined __powerpc__ || defined __i386__ || defined __arm__ || defined __mips__
#define FA (void*)0
#else
#define FA __builtin_frame_address(0)
#endif
u64 c_called(int ret,int sig,u64*v,void*fa);
extern void*const cs_tab[5][341]; extern callerfn*const cc_tab[5][341];
#endif
