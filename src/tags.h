/* written by lib/gen_tags.py */
TASK_0(uint64_t, zt0) { return CALL(nodebody, m_znode(0)); }
VOID_TASK_0(zv0) { CALL(nodebody, m_znode(3)); }
TASK_0(uint64_t, zt1) { return CALL(nodebody, m_znode(1)); }
VOID_TASK_0(zv1) { CALL(nodebody, m_znode(4)); }
TASK_0(uint64_t, zt2) { return CALL(nodebody, m_znode(2)); }
VOID_TASK_0(zv2) { CALL(nodebody, m_znode(5)); }
TASK_1(uint64_t, t1, NodeM*, n) { return CALL(nodebody, n); }
#define RT_t1 uint64_t
#define CK_t1(c,r) checkret64(c,r)
#define AR_t1(c) (c)
VOID_TASK_1(v1, NodeM*, n) { CALL(nodebody, n); }
#define AR_v1(c) (c)
TASK_2(uint32_t, t2, NodeM*, n, float, a2) { if (a2!=ta_f(n,2)) badarg(n,"t2"); return (uint32_t)CALL(nodebody, n); }
#define RT_t2 uint32_t
#define CK_t2(c,r) checkret32(c,r)
#define AR_t2(c) (c), ta_f(c,2)
VOID_TASK_2(v2, uint32_t, a1, NodeM*, n) { if (a1!=ta_u32(n,1)) badarg(n,"v2"); CALL(nodebody, n); }
#define AR_v2(c) ta_u32(c,1), (c)
TASK_3(NodeM*, t3, float, a1, NodeM*, n, uint8_t, a3) { if (a1!=ta_f(n,1) || a3!=ta_u8(n,3)) badarg(n,"t3"); CALL(nodebody, n); return n; }
#define RT_t3 NodeM*
#define CK_t3(c,r) checkretp(c,r)
#define AR_t3(c) ta_f(c,1), (c), ta_u8(c,3)
VOID_TASK_3(v3, NodeM*, n, double, a2, uint16_t, a3) { if (a2!=ta_d(n,2) || a3!=ta_u16(n,3)) badarg(n,"v3"); CALL(nodebody, n); }
#define AR_v3(c) (c), ta_d(c,2), ta_u16(c,3)
TASK_4(uint64_t, t4, uint32_t, a1, NodeM*, n, double, a3, uint16_t, a4) { if (a1!=ta_u32(n,1) || a3!=ta_d(n,3) || a4!=ta_u16(n,4)) badarg(n,"t4"); return CALL(nodebody, n); }
#define RT_t4 uint64_t
#define CK_t4(c,r) checkret64(c,r)
#define AR_t4(c) ta_u32(c,1), (c), ta_d(c,3), ta_u16(c,4)
VOID_TASK_4(v4, double, a1, uint16_t, a2, int64_t, a3, NodeM*, n) { if (a1!=ta_d(n,1) || a2!=ta_u16(n,2) || a3!=ta_i64(n,3)) badarg(n,"v4"); CALL(nodebody, n); }
#define AR_v4(c) ta_d(c,1), ta_u16(c,2), ta_i64(c,3), (c)
TASK_5(uint32_t, t5, uint8_t, a1, double, a2, NodeM*, n, int64_t, a4, float, a5) { if (a1!=ta_u8(n,1) || a2!=ta_d(n,2) || a4!=ta_i64(n,4) || a5!=ta_f(n,5)) badarg(n,"t5"); return (uint32_t)CALL(nodebody, n); }
#define RT_t5 uint32_t
#define CK_t5(c,r) checkret32(c,r)
#define AR_t5(c) ta_u8(c,1), ta_d(c,2), (c), ta_i64(c,4), ta_f(c,5)
VOID_TASK_5(v5, NodeM*, n, int64_t, a2, float, a3, uint32_t, a4, uint8_t, a5) { if (a2!=ta_i64(n,2) || a3!=ta_f(n,3) || a4!=ta_u32(n,4) || a5!=ta_u8(n,5)) badarg(n,"v5"); CALL(nodebody, n); }
#define AR_v5(c) (c), ta_i64(c,2), ta_f(c,3), ta_u32(c,4), ta_u8(c,5)
TASK_6(NodeM*, t6, double, a1, uint16_t, a2, NodeM*, n, float, a4, uint32_t, a5, uint8_t, a6) { if (a1!=ta_d(n,1) || a2!=ta_u16(n,2) || a4!=ta_f(n,4) || a5!=ta_u32(n,5) || a6!=ta_u8(n,6)) badarg(n,"t6"); CALL(nodebody, n); return n; }
#define RT_t6 NodeM*
#define CK_t6(c,r) checkretp(c,r)
#define AR_t6(c) ta_d(c,1), ta_u16(c,2), (c), ta_f(c,4), ta_u32(c,5), ta_u8(c,6)
VOID_TASK_6(v6, int64_t, a1, float, a2, uint32_t, a3, uint8_t, a4, double, a5, NodeM*, n) { if (a1!=ta_i64(n,1) || a2!=ta_f(n,2) || a3!=ta_u32(n,3) || a4!=ta_u8(n,4) || a5!=ta_d(n,5)) badarg(n,"v6"); CALL(nodebody, n); }
#define AR_v6(c) ta_i64(c,1), ta_f(c,2), ta_u32(c,3), ta_u8(c,4), ta_d(c,5), (c)
#ifdef LACE14
TASK_7(uint64_t, t7, uint16_t, a1, int64_t, a2, float, a3, NodeM*, n, uint8_t, a5, double, a6, uint16_t, a7) { if (a1!=ta_u16(n,1) || a2!=ta_i64(n,2) || a3!=ta_f(n,3) || a5!=ta_u8(n,5) || a6!=ta_d(n,6) || a7!=ta_u16(n,7)) badarg(n,"t7"); return CALL(nodebody, n); }
#define RT_t7 uint64_t
#define CK_t7(c,r) checkret64(c,r)
#define AR_t7(c) ta_u16(c,1), ta_i64(c,2), ta_f(c,3), (c), ta_u8(c,5), ta_d(c,6), ta_u16(c,7)
VOID_TASK_7(v7, NodeM*, n, uint32_t, a2, uint8_t, a3, double, a4, uint16_t, a5, int64_t, a6, float, a7) { if (a2!=ta_u32(n,2) || a3!=ta_u8(n,3) || a4!=ta_d(n,4) || a5!=ta_u16(n,5) || a6!=ta_i64(n,6) || a7!=ta_f(n,7)) badarg(n,"v7"); CALL(nodebody, n); }
#define AR_v7(c) (c), ta_u32(c,2), ta_u8(c,3), ta_d(c,4), ta_u16(c,5), ta_i64(c,6), ta_f(c,7)
TASK_8(uint32_t, t8, int64_t, a1, float, a2, uint32_t, a3, NodeM*, n, double, a5, uint16_t, a6, int64_t, a7, float, a8) { if (a1!=ta_i64(n,1) || a2!=ta_f(n,2) || a3!=ta_u32(n,3) || a5!=ta_d(n,5) || a6!=ta_u16(n,6) || a7!=ta_i64(n,7) || a8!=ta_f(n,8)) badarg(n,"t8"); return (uint32_t)CALL(nodebody, n); }
#define RT_t8 uint32_t
#define CK_t8(c,r) checkret32(c,r)
#define AR_t8(c) ta_i64(c,1), ta_f(c,2), ta_u32(c,3), (c), ta_d(c,5), ta_u16(c,6), ta_i64(c,7), ta_f(c,8)
VOID_TASK_8(v8, uint32_t, a1, uint8_t, a2, double, a3, uint16_t, a4, int64_t, a5, float, a6, uint32_t, a7, NodeM*, n) { if (a1!=ta_u32(n,1) || a2!=ta_u8(n,2) || a3!=ta_d(n,3) || a4!=ta_u16(n,4) || a5!=ta_i64(n,5) || a6!=ta_f(n,6) || a7!=ta_u32(n,7)) badarg(n,"v8"); CALL(nodebody, n); }
#define AR_v8(c) ta_u32(c,1), ta_u8(c,2), ta_d(c,3), ta_u16(c,4), ta_i64(c,5), ta_f(c,6), ta_u32(c,7), (c)
TASK_9(NodeM*, t9, float, a1, uint32_t, a2, uint8_t, a3, double, a4, NodeM*, n, int64_t, a6, float, a7, uint32_t, a8, uint8_t, a9) { if (a1!=ta_f(n,1) || a2!=ta_u32(n,2) || a3!=ta_u8(n,3) || a4!=ta_d(n,4) || a6!=ta_i64(n,6) || a7!=ta_f(n,7) || a8!=ta_u32(n,8) || a9!=ta_u8(n,9)) badarg(n,"t9"); CALL(nodebody, n); return n; }
#define RT_t9 NodeM*
#define CK_t9(c,r) checkretp(c,r)
#define AR_t9(c) ta_f(c,1), ta_u32(c,2), ta_u8(c,3), ta_d(c,4), (c), ta_i64(c,6), ta_f(c,7), ta_u32(c,8), ta_u8(c,9)
VOID_TASK_9(v9, NodeM*, n, double, a2, uint16_t, a3, int64_t, a4, float, a5, uint32_t, a6, uint8_t, a7, double, a8, uint16_t, a9) { if (a2!=ta_d(n,2) || a3!=ta_u16(n,3) || a4!=ta_i64(n,4) || a5!=ta_f(n,5) || a6!=ta_u32(n,6) || a7!=ta_u8(n,7) || a8!=ta_d(n,8) || a9!=ta_u16(n,9)) badarg(n,"v9"); CALL(nodebody, n); }
#define AR_v9(c) (c), ta_d(c,2), ta_u16(c,3), ta_i64(c,4), ta_f(c,5), ta_u32(c,6), ta_u8(c,7), ta_d(c,8), ta_u16(c,9)
TASK_10(uint64_t, t10, uint32_t, a1, uint8_t, a2, double, a3, uint16_t, a4, NodeM*, n, float, a6, uint32_t, a7, uint8_t, a8, double, a9, uint16_t, a10) { if (a1!=ta_u32(n,1) || a2!=ta_u8(n,2) || a3!=ta_d(n,3) || a4!=ta_u16(n,4) || a6!=ta_f(n,6) || a7!=ta_u32(n,7) || a8!=ta_u8(n,8) || a9!=ta_d(n,9) || a10!=ta_u16(n,10)) badarg(n,"t10"); return CALL(nodebody, n); }
#define RT_t10 uint64_t
#define CK_t10(c,r) checkret64(c,r)
#define AR_t10(c) ta_u32(c,1), ta_u8(c,2), ta_d(c,3), ta_u16(c,4), (c), ta_f(c,6), ta_u32(c,7), ta_u8(c,8), ta_d(c,9), ta_u16(c,10)
VOID_TASK_10(v10, double, a1, uint16_t, a2, int64_t, a3, float, a4, uint32_t, a5, uint8_t, a6, double, a7, uint16_t, a8, int64_t, a9, NodeM*, n) { if (a1!=ta_d(n,1) || a2!=ta_u16(n,2) || a3!=ta_i64(n,3) || a4!=ta_f(n,4) || a5!=ta_u32(n,5) || a6!=ta_u8(n,6) || a7!=ta_d(n,7) || a8!=ta_u16(n,8) || a9!=ta_i64(n,9)) badarg(n,"v10"); CALL(nodebody, n); }
#define AR_v10(c) ta_d(c,1), ta_u16(c,2), ta_i64(c,3), ta_f(c,4), ta_u32(c,5), ta_u8(c,6), ta_d(c,7), ta_u16(c,8), ta_i64(c,9), (c)
TASK_11(uint32_t, t11, uint8_t, a1, double, a2, uint16_t, a3, int64_t, a4, float, a5, NodeM*, n, uint8_t, a7, double, a8, uint16_t, a9, int64_t, a10, float, a11) { if (a1!=ta_u8(n,1) || a2!=ta_d(n,2) || a3!=ta_u16(n,3) || a4!=ta_i64(n,4) || a5!=ta_f(n,5) || a7!=ta_u8(n,7) || a8!=ta_d(n,8) || a9!=ta_u16(n,9) || a10!=ta_i64(n,10) || a11!=ta_f(n,11)) badarg(n,"t11"); return (uint32_t)CALL(nodebody, n); }
#define RT_t11 uint32_t
#define CK_t11(c,r) checkret32(c,r)
#define AR_t11(c) ta_u8(c,1), ta_d(c,2), ta_u16(c,3), ta_i64(c,4), ta_f(c,5), (c), ta_u8(c,7), ta_d(c,8), ta_u16(c,9), ta_i64(c,10), ta_f(c,11)
VOID_TASK_11(v11, NodeM*, n, int64_t, a2, float, a3, uint32_t, a4, uint8_t, a5, double, a6, uint16_t, a7, int64_t, a8, float, a9, uint32_t, a10, uint8_t, a11) { if (a2!=ta_i64(n,2) || a3!=ta_f(n,3) || a4!=ta_u32(n,4) || a5!=ta_u8(n,5) || a6!=ta_d(n,6) || a7!=ta_u16(n,7) || a8!=ta_i64(n,8) || a9!=ta_f(n,9) || a10!=ta_u32(n,10) || a11!=ta_u8(n,11)) badarg(n,"v11"); CALL(nodebody, n); }
#define AR_v11(c) (c), ta_i64(c,2), ta_f(c,3), ta_u32(c,4), ta_u8(c,5), ta_d(c,6), ta_u16(c,7), ta_i64(c,8), ta_f(c,9), ta_u32(c,10), ta_u8(c,11)
TASK_12(NodeM*, t12, double, a1, uint16_t, a2, int64_t, a3, float, a4, uint32_t, a5, NodeM*, n, double, a7, uint16_t, a8, int64_t, a9, float, a10, uint32_t, a11, uint8_t, a12) { if (a1!=ta_d(n,1) || a2!=ta_u16(n,2) || a3!=ta_i64(n,3) || a4!=ta_f(n,4) || a5!=ta_u32(n,5) || a7!=ta_d(n,7) || a8!=ta_u16(n,8) || a9!=ta_i64(n,9) || a10!=ta_f(n,10) || a11!=ta_u32(n,11) || a12!=ta_u8(n,12)) badarg(n,"t12"); CALL(nodebody, n); return n; }
#define RT_t12 NodeM*
#define CK_t12(c,r) checkretp(c,r)
#define AR_t12(c) ta_d(c,1), ta_u16(c,2), ta_i64(c,3), ta_f(c,4), ta_u32(c,5), (c), ta_d(c,7), ta_u16(c,8), ta_i64(c,9), ta_f(c,10), ta_u32(c,11), ta_u8(c,12)
VOID_TASK_12(v12, int64_t, a1, float, a2, uint32_t, a3, uint8_t, a4, double, a5, uint16_t, a6, int64_t, a7, float, a8, uint32_t, a9, uint8_t, a10, double, a11, NodeM*, n) { if (a1!=ta_i64(n,1) || a2!=ta_f(n,2) || a3!=ta_u32(n,3) || a4!=ta_u8(n,4) || a5!=ta_d(n,5) || a6!=ta_u16(n,6) || a7!=ta_i64(n,7) || a8!=ta_f(n,8) || a9!=ta_u32(n,9) || a10!=ta_u8(n,10) || a11!=ta_d(n,11)) badarg(n,"v12"); CALL(nodebody, n); }
#define AR_v12(c) ta_i64(c,1), ta_f(c,2), ta_u32(c,3), ta_u8(c,4), ta_d(c,5), ta_u16(c,6), ta_i64(c,7), ta_f(c,8), ta_u32(c,9), ta_u8(c,10), ta_d(c,11), (c)
TASK_13(uint64_t, t13, uint16_t, a1, int64_t, a2, float, a3, uint32_t, a4, uint8_t, a5, double, a6, NodeM*, n, int64_t, a8, float, a9, uint32_t, a10, uint8_t, a11, double, a12, uint16_t, a13) { if (a1!=ta_u16(n,1) || a2!=ta_i64(n,2) || a3!=ta_f(n,3) || a4!=ta_u32(n,4) || a5!=ta_u8(n,5) || a6!=ta_d(n,6) || a8!=ta_i64(n,8) || a9!=ta_f(n,9) || a10!=ta_u32(n,10) || a11!=ta_u8(n,11) || a12!=ta_d(n,12) || a13!=ta_u16(n,13)) badarg(n,"t13"); return CALL(nodebody, n); }
#define RT_t13 uint64_t
#define CK_t13(c,r) checkret64(c,r)
#define AR_t13(c) ta_u16(c,1), ta_i64(c,2), ta_f(c,3), ta_u32(c,4), ta_u8(c,5), ta_d(c,6), (c), ta_i64(c,8), ta_f(c,9), ta_u32(c,10), ta_u8(c,11), ta_d(c,12), ta_u16(c,13)
VOID_TASK_13(v13, NodeM*, n, uint32_t, a2, uint8_t, a3, double, a4, uint16_t, a5, int64_t, a6, float, a7, uint32_t, a8, uint8_t, a9, double, a10, uint16_t, a11, int64_t, a12, float, a13) { if (a2!=ta_u32(n,2) || a3!=ta_u8(n,3) || a4!=ta_d(n,4) || a5!=ta_u16(n,5) || a6!=ta_i64(n,6) || a7!=ta_f(n,7) || a8!=ta_u32(n,8) || a9!=ta_u8(n,9) || a10!=ta_d(n,10) || a11!=ta_u16(n,11) || a12!=ta_i64(n,12) || a13!=ta_f(n,13)) badarg(n,"v13"); CALL(nodebody, n); }
#define AR_v13(c) (c), ta_u32(c,2), ta_u8(c,3), ta_d(c,4), ta_u16(c,5), ta_i64(c,6), ta_f(c,7), ta_u32(c,8), ta_u8(c,9), ta_d(c,10), ta_u16(c,11), ta_i64(c,12), ta_f(c,13)
TASK_14(uint32_t, t14, int64_t, a1, float, a2, uint32_t, a3, uint8_t, a4, double, a5, uint16_t, a6, NodeM*, n, float, a8, uint32_t, a9, uint8_t, a10, double, a11, uint16_t, a12, int64_t, a13, float, a14) { if (a1!=ta_i64(n,1) || a2!=ta_f(n,2) || a3!=ta_u32(n,3) || a4!=ta_u8(n,4) || a5!=ta_d(n,5) || a6!=ta_u16(n,6) || a8!=ta_f(n,8) || a9!=ta_u32(n,9) || a10!=ta_u8(n,10) || a11!=ta_d(n,11) || a12!=ta_u16(n,12) || a13!=ta_i64(n,13) || a14!=ta_f(n,14)) badarg(n,"t14"); return (uint32_t)CALL(nodebody, n); }
#define RT_t14 uint32_t
#define CK_t14(c,r) checkret32(c,r)
#define AR_t14(c) ta_i64(c,1), ta_f(c,2), ta_u32(c,3), ta_u8(c,4), ta_d(c,5), ta_u16(c,6), (c), ta_f(c,8), ta_u32(c,9), ta_u8(c,10), ta_d(c,11), ta_u16(c,12), ta_i64(c,13), ta_f(c,14)
VOID_TASK_14(v14, uint32_t, a1, uint8_t, a2, double, a3, uint16_t, a4, int64_t, a5, float, a6, uint32_t, a7, uint8_t, a8, double, a9, uint16_t, a10, int64_t, a11, float, a12, uint32_t, a13, NodeM*, n) { if (a1!=ta_u32(n,1) || a2!=ta_u8(n,2) || a3!=ta_d(n,3) || a4!=ta_u16(n,4) || a5!=ta_i64(n,5) || a6!=ta_f(n,6) || a7!=ta_u32(n,7) || a8!=ta_u8(n,8) || a9!=ta_d(n,9) || a10!=ta_u16(n,10) || a11!=ta_i64(n,11) || a12!=ta_f(n,12) || a13!=ta_u32(n,13)) badarg(n,"v14"); CALL(nodebody, n); }
#define AR_v14(c) ta_u32(c,1), ta_u8(c,2), ta_d(c,3), ta_u16(c,4), ta_i64(c,5), ta_f(c,6), ta_u32(c,7), ta_u8(c,8), ta_d(c,9), ta_u16(c,10), ta_i64(c,11), ta_f(c,12), ta_u32(c,13), (c)
#endif
#ifdef LACE14
#define EACH_T(X) X(t1,1) X(t2,2) X(t3,3) X(t4,4) X(t5,5) X(t6,6) X(t7,7) X(t8,8) X(t9,9) X(t10,10) X(t11,11) X(t12,12) X(t13,13) X(t14,14)
#define EACH_V(X) X(v1,1) X(v2,2) X(v3,3) X(v4,4) X(v5,5) X(v6,6) X(v7,7) X(v8,8) X(v9,9) X(v10,10) X(v11,11) X(v12,12) X(v13,13) X(v14,14)
#else
#define EACH_T(X) X(t1,1) X(t2,2) X(t3,3) X(t4,4) X(t5,5) X(t6,6)
#define EACH_V(X) X(v1,1) X(v2,2) X(v3,3) X(v4,4) X(v5,5) X(v6,6)
#endif
#define EACH_Z(X) X(0) X(1) X(2)
