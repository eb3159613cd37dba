/* types and checks of the generated tasks */
#ifndef ARITY_H
#define ARITY_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
typedef int (*a_fn)(int); typedef enum { A_E0, A_E1=1, A_E2=70000, A_EN=-5 } a_enum;
typedef struct { int32_t x; float y; uint16_t z[2]; } a_s12; typedef struct { double x; char c; int16_t s; } a_s16; typedef struct { uint8_t b[3]; } a_s3; typedef struct { uint64_t q[3]; } a_s24; typedef __int128 a_i128;
#ifdef __cplusplus
extern "C" {
#endif
extern long a_calls, a_stolen;
uint64_t a_start(int id, unsigned worker); void a_ran(uint64_t h); void a_expect(uint64_t h, unsigned n); void a_done(int id, const char *nm, int how); void a_result(int id, uint64_t got, uint64_t want, const char *nm); void a_wait_stolen(Task *t);
#ifdef __cplusplus
}
#endif
static inline uint64_t a_mix(uint64_t a, uint64_t b) { a^=b+0x9E3779B97F4A7C15ULL+(a<<6)+(a>>2); a^=a>>30; a*=0xBF58476D1CE4E5B9ULL; a^=a>>27; a*=0x94D049BB133111EBULL; return a^(a>>31); }
static inline int a_f0(int x){return x;} 
#define I(n,t) static inline t mk_##n(uint64_t h){ return (t)h; } static inline uint64_t h_##n(t v){ return (uint64_t)v; }
I(i8,int8_t) I(u8,uint8_t) I(i16,int16_t) I(u16,uint16_t) I(i32,int32_t) I(u32,uint32_t) I(i64,int64_t) I(u64,uint64_t) I(sz,size_t)
static inline float mk_flt(uint64_t h){ return (float)(int64_t)h/3.0f; } static inline uint64_t h_flt(float v){ uint32_t u; memcpy(&u,&v,4); return u; }
static inline double mk_dbl(uint64_t h){ return (double)(int64_t)h/7.0; } static inline uint64_t h_dbl(double v){ uint64_t u; memcpy(&u,&v,8); return u; }
static inline const void *mk_ptr(uint64_t h){ return (const void*)(uintptr_t)h; } static inline uint64_t h_ptr(const void *v){ return (uint64_t)(uintptr_t)v; }
static inline a_fn mk_fn(uint64_t h){ return (a_fn)(uintptr_t)h; } static inline uint64_t h_fn(a_fn v){ return (uint64_t)(uintptr_t)v; }
static inline bool mk_bl(uint64_t h){ return h&1; } static inline uint64_t h_bl(bool v){ return v; }
static inline a_enum mk_en(uint64_t h){ static const a_enum e[4]={A_E0,A_E1,A_E2,A_EN}; return e[h&3]; } static inline uint64_t h_en(a_enum v){ return (uint64_t)(int64_t)(int)v; }
static inline a_s12 mk_s12(uint64_t h){ a_s12 s; s.x=(int32_t)h; s.y=(float)(h>>40); s.z[0]=(uint16_t)(h>>16); s.z[1]=(uint16_t)(h>>48); return s; } static inline uint64_t h_s12(a_s12 s){ return a_mix(a_mix((uint32_t)s.x,h_flt(s.y)),((uint64_t)s.z[0]<<16)|s.z[1]); }
static inline a_s16 mk_s16(uint64_t h){ a_s16 s; s.x=mk_dbl(h); s.c=(char)h; s.s=(int16_t)(h>>20); return s; } static inline uint64_t h_s16(a_s16 s){ return a_mix(a_mix(h_dbl(s.x),(uint8_t)s.c),(uint16_t)s.s); }
static inline a_s3 mk_s3(uint64_t h){ a_s3 s; s.b[0]=(uint8_t)h; s.b[1]=(uint8_t)(h>>8); s.b[2]=(uint8_t)(h>>16); return s; } static inline uint64_t h_s3(a_s3 s){ return s.b[0]|s.b[1]<<8|s.b[2]<<16; }
static inline a_s24 mk_s24(uint64_t h){ a_s24 s; for(int i=0;i<3;i++) s.q[i]=a_mix(h,i); return s; } static inline uint64_t h_s24(a_s24 s){ return a_mix(a_mix(s.q[0],s.q[1]),s.q[2]); }
static inline long double mk_ld(uint64_t h){ return (long double)(int64_t)h/3.0L; } static inline uint64_t h_ld(long double v){ uint64_t u=0; uint16_t w=0; memcpy(&u,&v,8); memcpy(&w,(char*)&v+8,2); return a_mix(u,w); }
static inline a_i128 mk_i128(uint64_t h){ return (a_i128)(((unsigned __int128)a_mix(h,1)<<64)|a_mix(h,2)); } static inline uint64_t h_i128(a_i128 v){ return a_mix((uint64_t)v,(uint64_t)(v>>64)); }
#ifdef ARITY_MAIN
#include <pthread.h>
long a_calls, a_stolen; static uint64_t sum_ran, sum_exp; static long n_ran, n_exp; static __thread int dummy; static pthread_t starter; static volatile int waiting; static int wait_w=-1;
uint64_t a_start(int id, unsigned worker)
{
    WorkerP *w=lace_get_worker();
    if (!w || w->worker!=worker) { printf("\nSIMFAIL kind=worker iter_seed=0 :: a task runs on a thread whose worker is not the one it was given\n"); fflush(stdout); _exit(1); }
    return a_mix(0,(uint64_t)id);
}
void a_ran(uint64_t h) { __atomic_fetch_add(&sum_ran,a_mix(h,5),5); __atomic_fetch_add(&n_ran,1,5); }
void a_expect(uint64_t h, unsigned n) { sum_exp+=a_mix(h,5)*n; n_exp+=n; }
void a_done(int id, const char *nm, int how)
{
    if (sum_ran!=sum_exp || n_ran!=n_exp) { printf("\nSIMFAIL kind=arguments iter_seed=0 :: task %s, way %d: %s\n",nm,how,n_ran!=n_exp?"executed a wrong number of times":"arguments changed on the way"); fflush(stdout); _exit(1); }
    a_calls+=1; (void)id;
}
void a_result(int id, uint64_t got, uint64_t want, const char *nm) { if (got!=want) { printf("\nSIMFAIL kind=result iter_seed=0 :: result of task %s changed on the way\n",nm); fflush(stdout); _exit(1); } (void)id; }
void a_wait_stolen(Task *t) { for (long i=0;i<2000000 && !TASK_IS_STOLEN(t);i++) { if (i>2000) usleep(1); } if (TASK_IS_STOLEN(t)) a_stolen++; }
#endif
#endif
