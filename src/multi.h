/* written by lib/gen_tags.py */
#ifndef MULTI_H
#define MULTI_H
#ifdef LACE14
enum { MAR=14 };
#else
enum { MAR=6 };
#endif
#ifdef MULTI_NOZERO
enum { MK=2*MAR };
#else
enum { MK=2*MAR+2 };
#endif
#define MARITY(k) ((k)>2*MAR?0:1+((k)-1)%MAR)
/* half of the programs use one kind everywhere */
#define MKIND(h) (1+(int)(g_mix(MULTI_SEED,((MULTI_SEED)>>17&1)?0:(uint64_t)((h)-__lace_worker->dq))%MK))
#define SPAWNM(NAME,x) do { int mk_=MKIND(__lace_dq_head); SPAWNK(NAME,mk_,x); } while(0)
/* the values of outstanding tasks without parameters, to be taken by whoever executes one */
#define MULTI_LIST(RT,NAME,IT) static IT NAME##_zv[64]; static int NAME##_zs[64]; TASK_DECL_1(RT, NAME, IT) \
static void NAME##_zput(IT x) { for (int i=0;;i++) { int e=0; if (i==64) rt_fail("harness","list"); if (__atomic_compare_exchange_n(&NAME##_zs[i],&e,1,0,5,5)) { NAME##_zv[i]=x; __atomic_store_n(&NAME##_zs[i],2,5); return; } } } \
static IT NAME##_zget(void) { for (int n=0;n<64;n++) for (int i=0;i<64;i++) { int e=2; if (__atomic_load_n(&NAME##_zs[i],5)==2 && __atomic_compare_exchange_n(&NAME##_zs[i],&e,3,0,5,5)) { IT x=NAME##_zv[i]; __atomic_store_n(&NAME##_zs[i],0,5); return x; } } rt_fail("twice","a task without parameters is executed more often than it was spawned"); return (IT)0; } \
static RT NAME##_zrun(WorkerP *__lace_worker, Task *__lace_dq_head) { return CALL(NAME,NAME##_zget()); }
#define MULTI_VLIST(NAME,IT) static IT NAME##_zv[64]; static int NAME##_zs[64]; VOID_TASK_DECL_1(NAME, IT) \
static void NAME##_zput(IT x) { for (int i=0;;i++) { int e=0; if (i==64) rt_fail("harness","list"); if (__atomic_compare_exchange_n(&NAME##_zs[i],&e,1,0,5,5)) { NAME##_zv[i]=x; __atomic_store_n(&NAME##_zs[i],2,5); return; } } } \
static IT NAME##_zget(void) { for (int n=0;n<64;n++) for (int i=0;i<64;i++) { int e=2; if (__atomic_load_n(&NAME##_zs[i],5)==2 && __atomic_compare_exchange_n(&NAME##_zs[i],&e,3,0,5,5)) { IT x=NAME##_zv[i]; __atomic_store_n(&NAME##_zs[i],0,5); return x; } } rt_fail("twice","a task without parameters is executed more often than it was spawned"); return (IT)0; } \
static void NAME##_zrun(WorkerP *__lace_worker, Task *__lace_dq_head) { CALL(NAME,NAME##_zget()); }
#ifndef LACE14
#ifdef MULTI_NOZERO
#define MULTI_T(RT,NAME,IT) TASK_1(RT, NAME##_m1, IT, i) {  return CALL(NAME,i); } TASK_2(RT, NAME##_m2, IT, i, char, d2) { (void)d2; return CALL(NAME,i); } TASK_3(RT, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; return CALL(NAME,i); } TASK_4(RT, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; return CALL(NAME,i); } TASK_5(RT, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; return CALL(NAME,i); } TASK_6(RT, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; return CALL(NAME,i); } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); }
#define MULTI_V(NAME,IT) TASK_1(int, NAME##_m1, IT, i) {  CALL(NAME,i); return 42; } TASK_2(int, NAME##_m2, IT, i, char, d2) { (void)d2; CALL(NAME,i); return 42; } TASK_3(int, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); return 42; } TASK_4(int, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); return 42; } TASK_5(int, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); return 42; } TASK_6(int, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); return 42; } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); }
#define SPAWNK(NAME,k_,x) switch (k_) { case 1: SPAWN(NAME##_m1, x); break; case 7: SPAWN(NAME##_v1, x); break; case 2: SPAWN(NAME##_m2, x, 6); break; case 8: SPAWN(NAME##_v2, x, 6); break; case 3: SPAWN(NAME##_m3, x, 6, 9); break; case 9: SPAWN(NAME##_v3, x, 6, 9); break; case 4: SPAWN(NAME##_m4, x, 6, 9, 12); break; case 10: SPAWN(NAME##_v4, x, 6, 9, 12); break; case 5: SPAWN(NAME##_m5, x, 6, 9, 12, 15); break; case 11: SPAWN(NAME##_v5, x, 6, 9, 12, 15); break; case 6: SPAWN(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 12: SPAWN(NAME##_v6, x, 6, 9, 12, 15, 18); break; }
#define RUNK(OP,NAME,k_,x) switch (k_) { case 1: OP(NAME##_m1, x); break; case 7: OP(NAME##_v1, x); break; case 2: OP(NAME##_m2, x, 6); break; case 8: OP(NAME##_v2, x, 6); break; case 3: OP(NAME##_m3, x, 6, 9); break; case 9: OP(NAME##_v3, x, 6, 9); break; case 4: OP(NAME##_m4, x, 6, 9, 12); break; case 10: OP(NAME##_v4, x, 6, 9, 12); break; case 5: OP(NAME##_m5, x, 6, 9, 12, 15); break; case 11: OP(NAME##_v5, x, 6, 9, 12, 15); break; case 6: OP(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 12: OP(NAME##_v6, x, 6, 9, 12, 15, 18); break; }
#define SYNCT(RT,NAME,dflt,zexpr) __extension__({ RT r_=(RT)0; switch (MKIND(__lace_dq_head-1)) { case 1: r_=SYNC(NAME##_m1); break; case 7: SYNC(NAME##_v1); r_=(dflt); break; case 2: r_=SYNC(NAME##_m2); break; case 8: SYNC(NAME##_v2); r_=(dflt); break; case 3: r_=SYNC(NAME##_m3); break; case 9: SYNC(NAME##_v3); r_=(dflt); break; case 4: r_=SYNC(NAME##_m4); break; case 10: SYNC(NAME##_v4); r_=(dflt); break; case 5: r_=SYNC(NAME##_m5); break; case 11: SYNC(NAME##_v5); r_=(dflt); break; case 6: r_=SYNC(NAME##_m6); break; case 12: SYNC(NAME##_v6); r_=(dflt); break; } r_; })
#define SYNCV(NAME) do { switch (MKIND(__lace_dq_head-1)) { case 1: SYNC(NAME##_m1); break; case 7: SYNC(NAME##_v1); break; case 2: SYNC(NAME##_m2); break; case 8: SYNC(NAME##_v2); break; case 3: SYNC(NAME##_m3); break; case 9: SYNC(NAME##_v3); break; case 4: SYNC(NAME##_m4); break; case 10: SYNC(NAME##_v4); break; case 5: SYNC(NAME##_m5); break; case 11: SYNC(NAME##_v5); break; case 6: SYNC(NAME##_m6); break; case 12: SYNC(NAME##_v6); break; } } while(0)
#else
#define MULTI_T(RT,NAME,IT) TASK_1(RT, NAME##_m1, IT, i) {  return CALL(NAME,i); } TASK_2(RT, NAME##_m2, IT, i, char, d2) { (void)d2; return CALL(NAME,i); } TASK_3(RT, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; return CALL(NAME,i); } TASK_4(RT, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; return CALL(NAME,i); } TASK_5(RT, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; return CALL(NAME,i); } TASK_6(RT, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; return CALL(NAME,i); } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); } TASK_0(RT, NAME##_m0) { return NAME##_zrun(__lace_worker,__lace_dq_head); } VOID_TASK_0(NAME##_v0) { NAME##_zrun(__lace_worker,__lace_dq_head); }
#define MULTI_V(NAME,IT) TASK_1(int, NAME##_m1, IT, i) {  CALL(NAME,i); return 42; } TASK_2(int, NAME##_m2, IT, i, char, d2) { (void)d2; CALL(NAME,i); return 42; } TASK_3(int, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); return 42; } TASK_4(int, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); return 42; } TASK_5(int, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); return 42; } TASK_6(int, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); return 42; } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); } TASK_0(int, NAME##_m0) { NAME##_zrun(__lace_worker,__lace_dq_head); return 5; } VOID_TASK_0(NAME##_v0) { NAME##_zrun(__lace_worker,__lace_dq_head); }
#define SPAWNK(NAME,k_,x) switch (k_) { case 1: SPAWN(NAME##_m1, x); break; case 7: SPAWN(NAME##_v1, x); break; case 2: SPAWN(NAME##_m2, x, 6); break; case 8: SPAWN(NAME##_v2, x, 6); break; case 3: SPAWN(NAME##_m3, x, 6, 9); break; case 9: SPAWN(NAME##_v3, x, 6, 9); break; case 4: SPAWN(NAME##_m4, x, 6, 9, 12); break; case 10: SPAWN(NAME##_v4, x, 6, 9, 12); break; case 5: SPAWN(NAME##_m5, x, 6, 9, 12, 15); break; case 11: SPAWN(NAME##_v5, x, 6, 9, 12, 15); break; case 6: SPAWN(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 12: SPAWN(NAME##_v6, x, 6, 9, 12, 15, 18); break; case 13: NAME##_zput(x); SPAWN(NAME##_m0); break; case 14: NAME##_zput(x); SPAWN(NAME##_v0); break; }
#define RUNK(OP,NAME,k_,x) switch (k_) { case 1: OP(NAME##_m1, x); break; case 7: OP(NAME##_v1, x); break; case 2: OP(NAME##_m2, x, 6); break; case 8: OP(NAME##_v2, x, 6); break; case 3: OP(NAME##_m3, x, 6, 9); break; case 9: OP(NAME##_v3, x, 6, 9); break; case 4: OP(NAME##_m4, x, 6, 9, 12); break; case 10: OP(NAME##_v4, x, 6, 9, 12); break; case 5: OP(NAME##_m5, x, 6, 9, 12, 15); break; case 11: OP(NAME##_v5, x, 6, 9, 12, 15); break; case 6: OP(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 12: OP(NAME##_v6, x, 6, 9, 12, 15, 18); break; case 13: NAME##_zput(x); OP(NAME##_m0); break; case 14: NAME##_zput(x); OP(NAME##_v0); break; }
#define SYNCT(RT,NAME,dflt,zexpr) __extension__({ RT r_=(RT)0; switch (MKIND(__lace_dq_head-1)) { case 1: r_=SYNC(NAME##_m1); break; case 7: SYNC(NAME##_v1); r_=(dflt); break; case 2: r_=SYNC(NAME##_m2); break; case 8: SYNC(NAME##_v2); r_=(dflt); break; case 3: r_=SYNC(NAME##_m3); break; case 9: SYNC(NAME##_v3); r_=(dflt); break; case 4: r_=SYNC(NAME##_m4); break; case 10: SYNC(NAME##_v4); r_=(dflt); break; case 5: r_=SYNC(NAME##_m5); break; case 11: SYNC(NAME##_v5); r_=(dflt); break; case 6: r_=SYNC(NAME##_m6); break; case 12: SYNC(NAME##_v6); r_=(dflt); break; case 13: SYNC(NAME##_m0); zexpr; r_=(dflt); break; case 14: SYNC(NAME##_v0); zexpr; r_=(dflt); break; } r_; })
#define SYNCV(NAME) do { switch (MKIND(__lace_dq_head-1)) { case 1: SYNC(NAME##_m1); break; case 7: SYNC(NAME##_v1); break; case 2: SYNC(NAME##_m2); break; case 8: SYNC(NAME##_v2); break; case 3: SYNC(NAME##_m3); break; case 9: SYNC(NAME##_v3); break; case 4: SYNC(NAME##_m4); break; case 10: SYNC(NAME##_v4); break; case 5: SYNC(NAME##_m5); break; case 11: SYNC(NAME##_v5); break; case 6: SYNC(NAME##_m6); break; case 12: SYNC(NAME##_v6); break; case 13: SYNC(NAME##_m0); break; case 14: SYNC(NAME##_v0); break; } } while(0)
#endif
#else
#ifdef MULTI_NOZERO
#define MULTI_T(RT,NAME,IT) TASK_1(RT, NAME##_m1, IT, i) {  return CALL(NAME,i); } TASK_2(RT, NAME##_m2, IT, i, char, d2) { (void)d2; return CALL(NAME,i); } TASK_3(RT, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; return CALL(NAME,i); } TASK_4(RT, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; return CALL(NAME,i); } TASK_5(RT, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; return CALL(NAME,i); } TASK_6(RT, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; return CALL(NAME,i); } TASK_7(RT, NAME##_m7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; return CALL(NAME,i); } TASK_8(RT, NAME##_m8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; return CALL(NAME,i); } TASK_9(RT, NAME##_m9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; return CALL(NAME,i); } TASK_10(RT, NAME##_m10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; return CALL(NAME,i); } TASK_11(RT, NAME##_m11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; return CALL(NAME,i); } TASK_12(RT, NAME##_m12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; return CALL(NAME,i); } TASK_13(RT, NAME##_m13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; return CALL(NAME,i); } TASK_14(RT, NAME##_m14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; return CALL(NAME,i); } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); } VOID_TASK_7(NAME##_v7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; CALL(NAME,i); } VOID_TASK_8(NAME##_v8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; CALL(NAME,i); } VOID_TASK_9(NAME##_v9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; CALL(NAME,i); } VOID_TASK_10(NAME##_v10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; CALL(NAME,i); } VOID_TASK_11(NAME##_v11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; CALL(NAME,i); } VOID_TASK_12(NAME##_v12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; CALL(NAME,i); } VOID_TASK_13(NAME##_v13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; CALL(NAME,i); } VOID_TASK_14(NAME##_v14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; CALL(NAME,i); }
#define MULTI_V(NAME,IT) TASK_1(int, NAME##_m1, IT, i) {  CALL(NAME,i); return 98; } TASK_2(int, NAME##_m2, IT, i, char, d2) { (void)d2; CALL(NAME,i); return 98; } TASK_3(int, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); return 98; } TASK_4(int, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); return 98; } TASK_5(int, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); return 98; } TASK_6(int, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); return 98; } TASK_7(int, NAME##_m7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; CALL(NAME,i); return 98; } TASK_8(int, NAME##_m8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; CALL(NAME,i); return 98; } TASK_9(int, NAME##_m9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; CALL(NAME,i); return 98; } TASK_10(int, NAME##_m10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; CALL(NAME,i); return 98; } TASK_11(int, NAME##_m11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; CALL(NAME,i); return 98; } TASK_12(int, NAME##_m12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; CALL(NAME,i); return 98; } TASK_13(int, NAME##_m13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; CALL(NAME,i); return 98; } TASK_14(int, NAME##_m14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; CALL(NAME,i); return 98; } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); } VOID_TASK_7(NAME##_v7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; CALL(NAME,i); } VOID_TASK_8(NAME##_v8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; CALL(NAME,i); } VOID_TASK_9(NAME##_v9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; CALL(NAME,i); } VOID_TASK_10(NAME##_v10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; CALL(NAME,i); } VOID_TASK_11(NAME##_v11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; CALL(NAME,i); } VOID_TASK_12(NAME##_v12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; CALL(NAME,i); } VOID_TASK_13(NAME##_v13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; CALL(NAME,i); } VOID_TASK_14(NAME##_v14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; CALL(NAME,i); }
#define SPAWNK(NAME,k_,x) switch (k_) { case 1: SPAWN(NAME##_m1, x); break; case 15: SPAWN(NAME##_v1, x); break; case 2: SPAWN(NAME##_m2, x, 6); break; case 16: SPAWN(NAME##_v2, x, 6); break; case 3: SPAWN(NAME##_m3, x, 6, 9); break; case 17: SPAWN(NAME##_v3, x, 6, 9); break; case 4: SPAWN(NAME##_m4, x, 6, 9, 12); break; case 18: SPAWN(NAME##_v4, x, 6, 9, 12); break; case 5: SPAWN(NAME##_m5, x, 6, 9, 12, 15); break; case 19: SPAWN(NAME##_v5, x, 6, 9, 12, 15); break; case 6: SPAWN(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 20: SPAWN(NAME##_v6, x, 6, 9, 12, 15, 18); break; case 7: SPAWN(NAME##_m7, x, 6, 9, 12, 15, 18, 21); break; case 21: SPAWN(NAME##_v7, x, 6, 9, 12, 15, 18, 21); break; case 8: SPAWN(NAME##_m8, x, 6, 9, 12, 15, 18, 21, 24); break; case 22: SPAWN(NAME##_v8, x, 6, 9, 12, 15, 18, 21, 24); break; case 9: SPAWN(NAME##_m9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 23: SPAWN(NAME##_v9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 10: SPAWN(NAME##_m10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 24: SPAWN(NAME##_v10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 11: SPAWN(NAME##_m11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 25: SPAWN(NAME##_v11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 12: SPAWN(NAME##_m12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 26: SPAWN(NAME##_v12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 13: SPAWN(NAME##_m13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 27: SPAWN(NAME##_v13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 14: SPAWN(NAME##_m14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; case 28: SPAWN(NAME##_v14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; }
#define RUNK(OP,NAME,k_,x) switch (k_) { case 1: OP(NAME##_m1, x); break; case 15: OP(NAME##_v1, x); break; case 2: OP(NAME##_m2, x, 6); break; case 16: OP(NAME##_v2, x, 6); break; case 3: OP(NAME##_m3, x, 6, 9); break; case 17: OP(NAME##_v3, x, 6, 9); break; case 4: OP(NAME##_m4, x, 6, 9, 12); break; case 18: OP(NAME##_v4, x, 6, 9, 12); break; case 5: OP(NAME##_m5, x, 6, 9, 12, 15); break; case 19: OP(NAME##_v5, x, 6, 9, 12, 15); break; case 6: OP(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 20: OP(NAME##_v6, x, 6, 9, 12, 15, 18); break; case 7: OP(NAME##_m7, x, 6, 9, 12, 15, 18, 21); break; case 21: OP(NAME##_v7, x, 6, 9, 12, 15, 18, 21); break; case 8: OP(NAME##_m8, x, 6, 9, 12, 15, 18, 21, 24); break; case 22: OP(NAME##_v8, x, 6, 9, 12, 15, 18, 21, 24); break; case 9: OP(NAME##_m9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 23: OP(NAME##_v9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 10: OP(NAME##_m10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 24: OP(NAME##_v10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 11: OP(NAME##_m11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 25: OP(NAME##_v11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 12: OP(NAME##_m12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 26: OP(NAME##_v12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 13: OP(NAME##_m13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 27: OP(NAME##_v13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 14: OP(NAME##_m14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; case 28: OP(NAME##_v14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; }
#define SYNCT(RT,NAME,dflt,zexpr) __extension__({ RT r_=(RT)0; switch (MKIND(__lace_dq_head-1)) { case 1: r_=SYNC(NAME##_m1); break; case 15: SYNC(NAME##_v1); r_=(dflt); break; case 2: r_=SYNC(NAME##_m2); break; case 16: SYNC(NAME##_v2); r_=(dflt); break; case 3: r_=SYNC(NAME##_m3); break; case 17: SYNC(NAME##_v3); r_=(dflt); break; case 4: r_=SYNC(NAME##_m4); break; case 18: SYNC(NAME##_v4); r_=(dflt); break; case 5: r_=SYNC(NAME##_m5); break; case 19: SYNC(NAME##_v5); r_=(dflt); break; case 6: r_=SYNC(NAME##_m6); break; case 20: SYNC(NAME##_v6); r_=(dflt); break; case 7: r_=SYNC(NAME##_m7); break; case 21: SYNC(NAME##_v7); r_=(dflt); break; case 8: r_=SYNC(NAME##_m8); break; case 22: SYNC(NAME##_v8); r_=(dflt); break; case 9: r_=SYNC(NAME##_m9); break; case 23: SYNC(NAME##_v9); r_=(dflt); break; case 10: r_=SYNC(NAME##_m10); break; case 24: SYNC(NAME##_v10); r_=(dflt); break; case 11: r_=SYNC(NAME##_m11); break; case 25: SYNC(NAME##_v11); r_=(dflt); break; case 12: r_=SYNC(NAME##_m12); break; case 26: SYNC(NAME##_v12); r_=(dflt); break; case 13: r_=SYNC(NAME##_m13); break; case 27: SYNC(NAME##_v13); r_=(dflt); break; case 14: r_=SYNC(NAME##_m14); break; case 28: SYNC(NAME##_v14); r_=(dflt); break; } r_; })
#define SYNCV(NAME) do { switch (MKIND(__lace_dq_head-1)) { case 1: SYNC(NAME##_m1); break; case 15: SYNC(NAME##_v1); break; case 2: SYNC(NAME##_m2); break; case 16: SYNC(NAME##_v2); break; case 3: SYNC(NAME##_m3); break; case 17: SYNC(NAME##_v3); break; case 4: SYNC(NAME##_m4); break; case 18: SYNC(NAME##_v4); break; case 5: SYNC(NAME##_m5); break; case 19: SYNC(NAME##_v5); break; case 6: SYNC(NAME##_m6); break; case 20: SYNC(NAME##_v6); break; case 7: SYNC(NAME##_m7); break; case 21: SYNC(NAME##_v7); break; case 8: SYNC(NAME##_m8); break; case 22: SYNC(NAME##_v8); break; case 9: SYNC(NAME##_m9); break; case 23: SYNC(NAME##_v9); break; case 10: SYNC(NAME##_m10); break; case 24: SYNC(NAME##_v10); break; case 11: SYNC(NAME##_m11); break; case 25: SYNC(NAME##_v11); break; case 12: SYNC(NAME##_m12); break; case 26: SYNC(NAME##_v12); break; case 13: SYNC(NAME##_m13); break; case 27: SYNC(NAME##_v13); break; case 14: SYNC(NAME##_m14); break; case 28: SYNC(NAME##_v14); break; } } while(0)
#else
#define MULTI_T(RT,NAME,IT) TASK_1(RT, NAME##_m1, IT, i) {  return CALL(NAME,i); } TASK_2(RT, NAME##_m2, IT, i, char, d2) { (void)d2; return CALL(NAME,i); } TASK_3(RT, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; return CALL(NAME,i); } TASK_4(RT, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; return CALL(NAME,i); } TASK_5(RT, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; return CALL(NAME,i); } TASK_6(RT, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; return CALL(NAME,i); } TASK_7(RT, NAME##_m7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; return CALL(NAME,i); } TASK_8(RT, NAME##_m8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; return CALL(NAME,i); } TASK_9(RT, NAME##_m9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; return CALL(NAME,i); } TASK_10(RT, NAME##_m10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; return CALL(NAME,i); } TASK_11(RT, NAME##_m11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; return CALL(NAME,i); } TASK_12(RT, NAME##_m12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; return CALL(NAME,i); } TASK_13(RT, NAME##_m13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; return CALL(NAME,i); } TASK_14(RT, NAME##_m14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; return CALL(NAME,i); } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); } VOID_TASK_7(NAME##_v7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; CALL(NAME,i); } VOID_TASK_8(NAME##_v8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; CALL(NAME,i); } VOID_TASK_9(NAME##_v9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; CALL(NAME,i); } VOID_TASK_10(NAME##_v10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; CALL(NAME,i); } VOID_TASK_11(NAME##_v11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; CALL(NAME,i); } VOID_TASK_12(NAME##_v12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; CALL(NAME,i); } VOID_TASK_13(NAME##_v13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; CALL(NAME,i); } VOID_TASK_14(NAME##_v14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; CALL(NAME,i); } TASK_0(RT, NAME##_m0) { return NAME##_zrun(__lace_worker,__lace_dq_head); } VOID_TASK_0(NAME##_v0) { NAME##_zrun(__lace_worker,__lace_dq_head); }
#define MULTI_V(NAME,IT) TASK_1(int, NAME##_m1, IT, i) {  CALL(NAME,i); return 98; } TASK_2(int, NAME##_m2, IT, i, char, d2) { (void)d2; CALL(NAME,i); return 98; } TASK_3(int, NAME##_m3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); return 98; } TASK_4(int, NAME##_m4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); return 98; } TASK_5(int, NAME##_m5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); return 98; } TASK_6(int, NAME##_m6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); return 98; } TASK_7(int, NAME##_m7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; CALL(NAME,i); return 98; } TASK_8(int, NAME##_m8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; CALL(NAME,i); return 98; } TASK_9(int, NAME##_m9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; CALL(NAME,i); return 98; } TASK_10(int, NAME##_m10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; CALL(NAME,i); return 98; } TASK_11(int, NAME##_m11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; CALL(NAME,i); return 98; } TASK_12(int, NAME##_m12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; CALL(NAME,i); return 98; } TASK_13(int, NAME##_m13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; CALL(NAME,i); return 98; } TASK_14(int, NAME##_m14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; CALL(NAME,i); return 98; } VOID_TASK_1(NAME##_v1, IT, i) {  CALL(NAME,i); } VOID_TASK_2(NAME##_v2, IT, i, char, d2) { (void)d2; CALL(NAME,i); } VOID_TASK_3(NAME##_v3, IT, i, char, d2, long, d3) { (void)d2; (void)d3; CALL(NAME,i); } VOID_TASK_4(NAME##_v4, IT, i, char, d2, long, d3, int, d4) { (void)d2; (void)d3; (void)d4; CALL(NAME,i); } VOID_TASK_5(NAME##_v5, IT, i, char, d2, long, d3, int, d4, double, d5) { (void)d2; (void)d3; (void)d4; (void)d5; CALL(NAME,i); } VOID_TASK_6(NAME##_v6, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; CALL(NAME,i); } VOID_TASK_7(NAME##_v7, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; CALL(NAME,i); } VOID_TASK_8(NAME##_v8, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; CALL(NAME,i); } VOID_TASK_9(NAME##_v9, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; CALL(NAME,i); } VOID_TASK_10(NAME##_v10, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; CALL(NAME,i); } VOID_TASK_11(NAME##_v11, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; CALL(NAME,i); } VOID_TASK_12(NAME##_v12, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; CALL(NAME,i); } VOID_TASK_13(NAME##_v13, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; CALL(NAME,i); } VOID_TASK_14(NAME##_v14, IT, i, char, d2, long, d3, int, d4, double, d5, char, d6, long, d7, int, d8, double, d9, char, d10, long, d11, int, d12, double, d13, char, d14) { (void)d2; (void)d3; (void)d4; (void)d5; (void)d6; (void)d7; (void)d8; (void)d9; (void)d10; (void)d11; (void)d12; (void)d13; (void)d14; CALL(NAME,i); } TASK_0(int, NAME##_m0) { NAME##_zrun(__lace_worker,__lace_dq_head); return 5; } VOID_TASK_0(NAME##_v0) { NAME##_zrun(__lace_worker,__lace_dq_head); }
#define SPAWNK(NAME,k_,x) switch (k_) { case 1: SPAWN(NAME##_m1, x); break; case 15: SPAWN(NAME##_v1, x); break; case 2: SPAWN(NAME##_m2, x, 6); break; case 16: SPAWN(NAME##_v2, x, 6); break; case 3: SPAWN(NAME##_m3, x, 6, 9); break; case 17: SPAWN(NAME##_v3, x, 6, 9); break; case 4: SPAWN(NAME##_m4, x, 6, 9, 12); break; case 18: SPAWN(NAME##_v4, x, 6, 9, 12); break; case 5: SPAWN(NAME##_m5, x, 6, 9, 12, 15); break; case 19: SPAWN(NAME##_v5, x, 6, 9, 12, 15); break; case 6: SPAWN(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 20: SPAWN(NAME##_v6, x, 6, 9, 12, 15, 18); break; case 7: SPAWN(NAME##_m7, x, 6, 9, 12, 15, 18, 21); break; case 21: SPAWN(NAME##_v7, x, 6, 9, 12, 15, 18, 21); break; case 8: SPAWN(NAME##_m8, x, 6, 9, 12, 15, 18, 21, 24); break; case 22: SPAWN(NAME##_v8, x, 6, 9, 12, 15, 18, 21, 24); break; case 9: SPAWN(NAME##_m9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 23: SPAWN(NAME##_v9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 10: SPAWN(NAME##_m10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 24: SPAWN(NAME##_v10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 11: SPAWN(NAME##_m11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 25: SPAWN(NAME##_v11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 12: SPAWN(NAME##_m12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 26: SPAWN(NAME##_v12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 13: SPAWN(NAME##_m13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 27: SPAWN(NAME##_v13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 14: SPAWN(NAME##_m14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; case 28: SPAWN(NAME##_v14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; case 29: NAME##_zput(x); SPAWN(NAME##_m0); break; case 30: NAME##_zput(x); SPAWN(NAME##_v0); break; }
#define RUNK(OP,NAME,k_,x) switch (k_) { case 1: OP(NAME##_m1, x); break; case 15: OP(NAME##_v1, x); break; case 2: OP(NAME##_m2, x, 6); break; case 16: OP(NAME##_v2, x, 6); break; case 3: OP(NAME##_m3, x, 6, 9); break; case 17: OP(NAME##_v3, x, 6, 9); break; case 4: OP(NAME##_m4, x, 6, 9, 12); break; case 18: OP(NAME##_v4, x, 6, 9, 12); break; case 5: OP(NAME##_m5, x, 6, 9, 12, 15); break; case 19: OP(NAME##_v5, x, 6, 9, 12, 15); break; case 6: OP(NAME##_m6, x, 6, 9, 12, 15, 18); break; case 20: OP(NAME##_v6, x, 6, 9, 12, 15, 18); break; case 7: OP(NAME##_m7, x, 6, 9, 12, 15, 18, 21); break; case 21: OP(NAME##_v7, x, 6, 9, 12, 15, 18, 21); break; case 8: OP(NAME##_m8, x, 6, 9, 12, 15, 18, 21, 24); break; case 22: OP(NAME##_v8, x, 6, 9, 12, 15, 18, 21, 24); break; case 9: OP(NAME##_m9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 23: OP(NAME##_v9, x, 6, 9, 12, 15, 18, 21, 24, 27); break; case 10: OP(NAME##_m10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 24: OP(NAME##_v10, x, 6, 9, 12, 15, 18, 21, 24, 27, 30); break; case 11: OP(NAME##_m11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 25: OP(NAME##_v11, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33); break; case 12: OP(NAME##_m12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 26: OP(NAME##_v12, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36); break; case 13: OP(NAME##_m13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 27: OP(NAME##_v13, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39); break; case 14: OP(NAME##_m14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; case 28: OP(NAME##_v14, x, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42); break; case 29: NAME##_zput(x); OP(NAME##_m0); break; case 30: NAME##_zput(x); OP(NAME##_v0); break; }
#define SYNCT(RT,NAME,dflt,zexpr) __extension__({ RT r_=(RT)0; switch (MKIND(__lace_dq_head-1)) { case 1: r_=SYNC(NAME##_m1); break; case 15: SYNC(NAME##_v1); r_=(dflt); break; case 2: r_=SYNC(NAME##_m2); break; case 16: SYNC(NAME##_v2); r_=(dflt); break; case 3: r_=SYNC(NAME##_m3); break; case 17: SYNC(NAME##_v3); r_=(dflt); break; case 4: r_=SYNC(NAME##_m4); break; case 18: SYNC(NAME##_v4); r_=(dflt); break; case 5: r_=SYNC(NAME##_m5); break; case 19: SYNC(NAME##_v5); r_=(dflt); break; case 6: r_=SYNC(NAME##_m6); break; case 20: SYNC(NAME##_v6); r_=(dflt); break; case 7: r_=SYNC(NAME##_m7); break; case 21: SYNC(NAME##_v7); r_=(dflt); break; case 8: r_=SYNC(NAME##_m8); break; case 22: SYNC(NAME##_v8); r_=(dflt); break; case 9: r_=SYNC(NAME##_m9); break; case 23: SYNC(NAME##_v9); r_=(dflt); break; case 10: r_=SYNC(NAME##_m10); break; case 24: SYNC(NAME##_v10); r_=(dflt); break; case 11: r_=SYNC(NAME##_m11); break; case 25: SYNC(NAME##_v11); r_=(dflt); break; case 12: r_=SYNC(NAME##_m12); break; case 26: SYNC(NAME##_v12); r_=(dflt); break; case 13: r_=SYNC(NAME##_m13); break; case 27: SYNC(NAME##_v13); r_=(dflt); break; case 14: r_=SYNC(NAME##_m14); break; case 28: SYNC(NAME##_v14); r_=(dflt); break; case 29: SYNC(NAME##_m0); zexpr; r_=(dflt); break; case 30: SYNC(NAME##_v0); zexpr; r_=(dflt); break; } r_; })
#define SYNCV(NAME) do { switch (MKIND(__lace_dq_head-1)) { case 1: SYNC(NAME##_m1); break; case 15: SYNC(NAME##_v1); break; case 2: SYNC(NAME##_m2); break; case 16: SYNC(NAME##_v2); break; case 3: SYNC(NAME##_m3); break; case 17: SYNC(NAME##_v3); break; case 4: SYNC(NAME##_m4); break; case 18: SYNC(NAME##_v4); break; case 5: SYNC(NAME##_m5); break; case 19: SYNC(NAME##_v5); break; case 6: SYNC(NAME##_m6); break; case 20: SYNC(NAME##_v6); break; case 7: SYNC(NAME##_m7); break; case 21: SYNC(NAME##_v7); break; case 8: SYNC(NAME##_m8); break; case 22: SYNC(NAME##_v8); break; case 9: SYNC(NAME##_m9); break; case 23: SYNC(NAME##_v9); break; case 10: SYNC(NAME##_m10); break; case 24: SYNC(NAME##_v10); break; case 11: SYNC(NAME##_m11); break; case 25: SYNC(NAME##_v11); break; case 12: SYNC(NAME##_m12); break; case 26: SYNC(NAME##_v12); break; case 13: SYNC(NAME##_m13); break; case 27: SYNC(NAME##_v13); break; case 14: SYNC(NAME##_m14); break; case 28: SYNC(NAME##_v14); break; case 29: SYNC(NAME##_m0); break; case 30: SYNC(NAME##_v0); break; } } while(0)
#endif
#endif
#endif
