/* written by lib/gen_tags.py */
TASK_0(uint64_t, tgzt0) { Tog *t=(Tog*)m_znode(6); tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); return t->a; }
VOID_TASK_0(tgzv0) { Tog *t=(Tog*)m_znode(8); tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); }
TASK_0(uint64_t, tgzt1) { Tog *t=(Tog*)m_znode(7); tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); return t->a; }
VOID_TASK_0(tgzv1) { Tog *t=(Tog*)m_znode(9); tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); }
TASK_1(uint64_t, tgt1, Tog*, t) { tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); return t->a; }
#define AR_tgt1(t) t
VOID_TASK_1(tgv1, Tog*, t) { tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); }
#define AR_tgv1(t) t
TASK_2(uint64_t, tgt2, Tog*, t, uint64_t, a) { tog_body(__lace_worker, __lace_dq_head, t, a, t->b); return t->a; }
#define AR_tgt2(t) t, t->a
VOID_TASK_2(tgv2, uint64_t, a, Tog*, t) { tog_body(__lace_worker, __lace_dq_head, t, a, t->b); }
#define AR_tgv2(t) t->a, t
TASK_3(uint64_t, tgt3, uint64_t, a, Tog*, t, uint32_t, b) { tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt3(t) t->a, t, t->b
VOID_TASK_3(tgv3, uint64_t, a, Tog*, t, uint32_t, b) { tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv3(t) t->a, t, t->b
TASK_4(uint64_t, tgt4, uint64_t, a, Tog*, t, uint32_t, b, uint16_t, x4) { if (x4!=(uint16_t)(uint64_t)(tog_x(t,4)>>40)) badtog(t,"tgt4"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt4(t) t->a, t, t->b, (uint16_t)(uint64_t)(tog_x(t,4)>>40)
VOID_TASK_4(tgv4, uint64_t, a, uint32_t, b, Tog*, t, int64_t, x4) { if (x4!=(int64_t)(uint64_t)(tog_x(t,4)>>40)) badtog(t,"tgv4"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv4(t) t->a, t->b, t, (int64_t)(uint64_t)(tog_x(t,4)>>40)
TASK_5(uint64_t, tgt5, uint64_t, a, uint32_t, b, Tog*, t, int64_t, x4, float, x5) { if (x4!=(int64_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(float)(int16_t)(tog_x(t,5)>>40)) badtog(t,"tgt5"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt5(t) t->a, t->b, t, (int64_t)(uint64_t)(tog_x(t,4)>>40), (float)(int16_t)(tog_x(t,5)>>40)
VOID_TASK_5(tgv5, uint64_t, a, uint32_t, b, Tog*, t, float, x4, uint32_t, x5) { if (x4!=(float)(int16_t)(tog_x(t,4)>>40) || x5!=(uint32_t)(uint64_t)(tog_x(t,5)>>40)) badtog(t,"tgv5"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv5(t) t->a, t->b, t, (float)(int16_t)(tog_x(t,4)>>40), (uint32_t)(uint64_t)(tog_x(t,5)>>40)
TASK_6(uint64_t, tgt6, uint64_t, a, uint32_t, b, Tog*, t, float, x4, uint32_t, x5, uint8_t, x6) { if (x4!=(float)(int16_t)(tog_x(t,4)>>40) || x5!=(uint32_t)(uint64_t)(tog_x(t,5)>>40) || x6!=(uint8_t)(uint64_t)(tog_x(t,6)>>40)) badtog(t,"tgt6"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt6(t) t->a, t->b, t, (float)(int16_t)(tog_x(t,4)>>40), (uint32_t)(uint64_t)(tog_x(t,5)>>40), (uint8_t)(uint64_t)(tog_x(t,6)>>40)
VOID_TASK_6(tgv6, uint64_t, a, uint32_t, b, float, x3, Tog*, t, uint8_t, x5, double, x6) { if (x3!=(float)(int16_t)(tog_x(t,3)>>40) || x5!=(uint8_t)(uint64_t)(tog_x(t,5)>>40) || x6!=(double)(int16_t)(tog_x(t,6)>>40)) badtog(t,"tgv6"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv6(t) t->a, t->b, (float)(int16_t)(tog_x(t,3)>>40), t, (uint8_t)(uint64_t)(tog_x(t,5)>>40), (double)(int16_t)(tog_x(t,6)>>40)
#ifdef LACE14
TASK_7(uint64_t, tgt7, uint64_t, a, uint32_t, b, float, x3, Tog*, t, uint8_t, x5, double, x6, uint16_t, x7) { if (x3!=(float)(int16_t)(tog_x(t,3)>>40) || x5!=(uint8_t)(uint64_t)(tog_x(t,5)>>40) || x6!=(double)(int16_t)(tog_x(t,6)>>40) || x7!=(uint16_t)(uint64_t)(tog_x(t,7)>>40)) badtog(t,"tgt7"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt7(t) t->a, t->b, (float)(int16_t)(tog_x(t,3)>>40), t, (uint8_t)(uint64_t)(tog_x(t,5)>>40), (double)(int16_t)(tog_x(t,6)>>40), (uint16_t)(uint64_t)(tog_x(t,7)>>40)
VOID_TASK_7(tgv7, uint64_t, a, uint32_t, b, uint32_t, x3, Tog*, t, double, x5, uint16_t, x6, int64_t, x7) { if (x3!=(uint32_t)(uint64_t)(tog_x(t,3)>>40) || x5!=(double)(int16_t)(tog_x(t,5)>>40) || x6!=(uint16_t)(uint64_t)(tog_x(t,6)>>40) || x7!=(int64_t)(uint64_t)(tog_x(t,7)>>40)) badtog(t,"tgv7"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv7(t) t->a, t->b, (uint32_t)(uint64_t)(tog_x(t,3)>>40), t, (double)(int16_t)(tog_x(t,5)>>40), (uint16_t)(uint64_t)(tog_x(t,6)>>40), (int64_t)(uint64_t)(tog_x(t,7)>>40)
TASK_8(uint64_t, tgt8, uint64_t, a, uint32_t, b, uint32_t, x3, Tog*, t, double, x5, uint16_t, x6, int64_t, x7, float, x8) { if (x3!=(uint32_t)(uint64_t)(tog_x(t,3)>>40) || x5!=(double)(int16_t)(tog_x(t,5)>>40) || x6!=(uint16_t)(uint64_t)(tog_x(t,6)>>40) || x7!=(int64_t)(uint64_t)(tog_x(t,7)>>40) || x8!=(float)(int16_t)(tog_x(t,8)>>40)) badtog(t,"tgt8"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt8(t) t->a, t->b, (uint32_t)(uint64_t)(tog_x(t,3)>>40), t, (double)(int16_t)(tog_x(t,5)>>40), (uint16_t)(uint64_t)(tog_x(t,6)>>40), (int64_t)(uint64_t)(tog_x(t,7)>>40), (float)(int16_t)(tog_x(t,8)>>40)
VOID_TASK_8(tgv8, uint64_t, a, uint32_t, b, uint8_t, x3, double, x4, Tog*, t, int64_t, x6, float, x7, uint32_t, x8) { if (x3!=(uint8_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(double)(int16_t)(tog_x(t,4)>>40) || x6!=(int64_t)(uint64_t)(tog_x(t,6)>>40) || x7!=(float)(int16_t)(tog_x(t,7)>>40) || x8!=(uint32_t)(uint64_t)(tog_x(t,8)>>40)) badtog(t,"tgv8"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv8(t) t->a, t->b, (uint8_t)(uint64_t)(tog_x(t,3)>>40), (double)(int16_t)(tog_x(t,4)>>40), t, (int64_t)(uint64_t)(tog_x(t,6)>>40), (float)(int16_t)(tog_x(t,7)>>40), (uint32_t)(uint64_t)(tog_x(t,8)>>40)
TASK_9(uint64_t, tgt9, uint64_t, a, uint32_t, b, uint8_t, x3, double, x4, Tog*, t, int64_t, x6, float, x7, uint32_t, x8, uint8_t, x9) { if (x3!=(uint8_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(double)(int16_t)(tog_x(t,4)>>40) || x6!=(int64_t)(uint64_t)(tog_x(t,6)>>40) || x7!=(float)(int16_t)(tog_x(t,7)>>40) || x8!=(uint32_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(uint8_t)(uint64_t)(tog_x(t,9)>>40)) badtog(t,"tgt9"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt9(t) t->a, t->b, (uint8_t)(uint64_t)(tog_x(t,3)>>40), (double)(int16_t)(tog_x(t,4)>>40), t, (int64_t)(uint64_t)(tog_x(t,6)>>40), (float)(int16_t)(tog_x(t,7)>>40), (uint32_t)(uint64_t)(tog_x(t,8)>>40), (uint8_t)(uint64_t)(tog_x(t,9)>>40)
VOID_TASK_9(tgv9, uint64_t, a, uint32_t, b, double, x3, uint16_t, x4, Tog*, t, float, x6, uint32_t, x7, uint8_t, x8, double, x9) { if (x3!=(double)(int16_t)(tog_x(t,3)>>40) || x4!=(uint16_t)(uint64_t)(tog_x(t,4)>>40) || x6!=(float)(int16_t)(tog_x(t,6)>>40) || x7!=(uint32_t)(uint64_t)(tog_x(t,7)>>40) || x8!=(uint8_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(double)(int16_t)(tog_x(t,9)>>40)) badtog(t,"tgv9"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv9(t) t->a, t->b, (double)(int16_t)(tog_x(t,3)>>40), (uint16_t)(uint64_t)(tog_x(t,4)>>40), t, (float)(int16_t)(tog_x(t,6)>>40), (uint32_t)(uint64_t)(tog_x(t,7)>>40), (uint8_t)(uint64_t)(tog_x(t,8)>>40), (double)(int16_t)(tog_x(t,9)>>40)
TASK_10(uint64_t, tgt10, uint64_t, a, uint32_t, b, double, x3, uint16_t, x4, Tog*, t, float, x6, uint32_t, x7, uint8_t, x8, double, x9, uint16_t, x10) { if (x3!=(double)(int16_t)(tog_x(t,3)>>40) || x4!=(uint16_t)(uint64_t)(tog_x(t,4)>>40) || x6!=(float)(int16_t)(tog_x(t,6)>>40) || x7!=(uint32_t)(uint64_t)(tog_x(t,7)>>40) || x8!=(uint8_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(double)(int16_t)(tog_x(t,9)>>40) || x10!=(uint16_t)(uint64_t)(tog_x(t,10)>>40)) badtog(t,"tgt10"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt10(t) t->a, t->b, (double)(int16_t)(tog_x(t,3)>>40), (uint16_t)(uint64_t)(tog_x(t,4)>>40), t, (float)(int16_t)(tog_x(t,6)>>40), (uint32_t)(uint64_t)(tog_x(t,7)>>40), (uint8_t)(uint64_t)(tog_x(t,8)>>40), (double)(int16_t)(tog_x(t,9)>>40), (uint16_t)(uint64_t)(tog_x(t,10)>>40)
VOID_TASK_10(tgv10, uint64_t, a, uint32_t, b, uint16_t, x3, int64_t, x4, float, x5, Tog*, t, uint8_t, x7, double, x8, uint16_t, x9, int64_t, x10) { if (x3!=(uint16_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(int64_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(float)(int16_t)(tog_x(t,5)>>40) || x7!=(uint8_t)(uint64_t)(tog_x(t,7)>>40) || x8!=(double)(int16_t)(tog_x(t,8)>>40) || x9!=(uint16_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(int64_t)(uint64_t)(tog_x(t,10)>>40)) badtog(t,"tgv10"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv10(t) t->a, t->b, (uint16_t)(uint64_t)(tog_x(t,3)>>40), (int64_t)(uint64_t)(tog_x(t,4)>>40), (float)(int16_t)(tog_x(t,5)>>40), t, (uint8_t)(uint64_t)(tog_x(t,7)>>40), (double)(int16_t)(tog_x(t,8)>>40), (uint16_t)(uint64_t)(tog_x(t,9)>>40), (int64_t)(uint64_t)(tog_x(t,10)>>40)
TASK_11(uint64_t, tgt11, uint64_t, a, uint32_t, b, uint16_t, x3, int64_t, x4, float, x5, Tog*, t, uint8_t, x7, double, x8, uint16_t, x9, int64_t, x10, float, x11) { if (x3!=(uint16_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(int64_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(float)(int16_t)(tog_x(t,5)>>40) || x7!=(uint8_t)(uint64_t)(tog_x(t,7)>>40) || x8!=(double)(int16_t)(tog_x(t,8)>>40) || x9!=(uint16_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(int64_t)(uint64_t)(tog_x(t,10)>>40) || x11!=(float)(int16_t)(tog_x(t,11)>>40)) badtog(t,"tgt11"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt11(t) t->a, t->b, (uint16_t)(uint64_t)(tog_x(t,3)>>40), (int64_t)(uint64_t)(tog_x(t,4)>>40), (float)(int16_t)(tog_x(t,5)>>40), t, (uint8_t)(uint64_t)(tog_x(t,7)>>40), (double)(int16_t)(tog_x(t,8)>>40), (uint16_t)(uint64_t)(tog_x(t,9)>>40), (int64_t)(uint64_t)(tog_x(t,10)>>40), (float)(int16_t)(tog_x(t,11)>>40)
VOID_TASK_11(tgv11, uint64_t, a, uint32_t, b, int64_t, x3, float, x4, uint32_t, x5, Tog*, t, double, x7, uint16_t, x8, int64_t, x9, float, x10, uint32_t, x11) { if (x3!=(int64_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(float)(int16_t)(tog_x(t,4)>>40) || x5!=(uint32_t)(uint64_t)(tog_x(t,5)>>40) || x7!=(double)(int16_t)(tog_x(t,7)>>40) || x8!=(uint16_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(int64_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(float)(int16_t)(tog_x(t,10)>>40) || x11!=(uint32_t)(uint64_t)(tog_x(t,11)>>40)) badtog(t,"tgv11"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv11(t) t->a, t->b, (int64_t)(uint64_t)(tog_x(t,3)>>40), (float)(int16_t)(tog_x(t,4)>>40), (uint32_t)(uint64_t)(tog_x(t,5)>>40), t, (double)(int16_t)(tog_x(t,7)>>40), (uint16_t)(uint64_t)(tog_x(t,8)>>40), (int64_t)(uint64_t)(tog_x(t,9)>>40), (float)(int16_t)(tog_x(t,10)>>40), (uint32_t)(uint64_t)(tog_x(t,11)>>40)
TASK_12(uint64_t, tgt12, uint64_t, a, uint32_t, b, int64_t, x3, float, x4, uint32_t, x5, Tog*, t, double, x7, uint16_t, x8, int64_t, x9, float, x10, uint32_t, x11, uint8_t, x12) { if (x3!=(int64_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(float)(int16_t)(tog_x(t,4)>>40) || x5!=(uint32_t)(uint64_t)(tog_x(t,5)>>40) || x7!=(double)(int16_t)(tog_x(t,7)>>40) || x8!=(uint16_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(int64_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(float)(int16_t)(tog_x(t,10)>>40) || x11!=(uint32_t)(uint64_t)(tog_x(t,11)>>40) || x12!=(uint8_t)(uint64_t)(tog_x(t,12)>>40)) badtog(t,"tgt12"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt12(t) t->a, t->b, (int64_t)(uint64_t)(tog_x(t,3)>>40), (float)(int16_t)(tog_x(t,4)>>40), (uint32_t)(uint64_t)(tog_x(t,5)>>40), t, (double)(int16_t)(tog_x(t,7)>>40), (uint16_t)(uint64_t)(tog_x(t,8)>>40), (int64_t)(uint64_t)(tog_x(t,9)>>40), (float)(int16_t)(tog_x(t,10)>>40), (uint32_t)(uint64_t)(tog_x(t,11)>>40), (uint8_t)(uint64_t)(tog_x(t,12)>>40)
VOID_TASK_12(tgv12, uint64_t, a, uint32_t, b, float, x3, uint32_t, x4, uint8_t, x5, double, x6, Tog*, t, int64_t, x8, float, x9, uint32_t, x10, uint8_t, x11, double, x12) { if (x3!=(float)(int16_t)(tog_x(t,3)>>40) || x4!=(uint32_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(uint8_t)(uint64_t)(tog_x(t,5)>>40) || x6!=(double)(int16_t)(tog_x(t,6)>>40) || x8!=(int64_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(float)(int16_t)(tog_x(t,9)>>40) || x10!=(uint32_t)(uint64_t)(tog_x(t,10)>>40) || x11!=(uint8_t)(uint64_t)(tog_x(t,11)>>40) || x12!=(double)(int16_t)(tog_x(t,12)>>40)) badtog(t,"tgv12"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv12(t) t->a, t->b, (float)(int16_t)(tog_x(t,3)>>40), (uint32_t)(uint64_t)(tog_x(t,4)>>40), (uint8_t)(uint64_t)(tog_x(t,5)>>40), (double)(int16_t)(tog_x(t,6)>>40), t, (int64_t)(uint64_t)(tog_x(t,8)>>40), (float)(int16_t)(tog_x(t,9)>>40), (uint32_t)(uint64_t)(tog_x(t,10)>>40), (uint8_t)(uint64_t)(tog_x(t,11)>>40), (double)(int16_t)(tog_x(t,12)>>40)
TASK_13(uint64_t, tgt13, uint64_t, a, uint32_t, b, float, x3, uint32_t, x4, uint8_t, x5, double, x6, Tog*, t, int64_t, x8, float, x9, uint32_t, x10, uint8_t, x11, double, x12, uint16_t, x13) { if (x3!=(float)(int16_t)(tog_x(t,3)>>40) || x4!=(uint32_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(uint8_t)(uint64_t)(tog_x(t,5)>>40) || x6!=(double)(int16_t)(tog_x(t,6)>>40) || x8!=(int64_t)(uint64_t)(tog_x(t,8)>>40) || x9!=(float)(int16_t)(tog_x(t,9)>>40) || x10!=(uint32_t)(uint64_t)(tog_x(t,10)>>40) || x11!=(uint8_t)(uint64_t)(tog_x(t,11)>>40) || x12!=(double)(int16_t)(tog_x(t,12)>>40) || x13!=(uint16_t)(uint64_t)(tog_x(t,13)>>40)) badtog(t,"tgt13"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt13(t) t->a, t->b, (float)(int16_t)(tog_x(t,3)>>40), (uint32_t)(uint64_t)(tog_x(t,4)>>40), (uint8_t)(uint64_t)(tog_x(t,5)>>40), (double)(int16_t)(tog_x(t,6)>>40), t, (int64_t)(uint64_t)(tog_x(t,8)>>40), (float)(int16_t)(tog_x(t,9)>>40), (uint32_t)(uint64_t)(tog_x(t,10)>>40), (uint8_t)(uint64_t)(tog_x(t,11)>>40), (double)(int16_t)(tog_x(t,12)>>40), (uint16_t)(uint64_t)(tog_x(t,13)>>40)
VOID_TASK_13(tgv13, uint64_t, a, uint32_t, b, uint32_t, x3, uint8_t, x4, double, x5, uint16_t, x6, Tog*, t, float, x8, uint32_t, x9, uint8_t, x10, double, x11, uint16_t, x12, int64_t, x13) { if (x3!=(uint32_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(uint8_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(double)(int16_t)(tog_x(t,5)>>40) || x6!=(uint16_t)(uint64_t)(tog_x(t,6)>>40) || x8!=(float)(int16_t)(tog_x(t,8)>>40) || x9!=(uint32_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(uint8_t)(uint64_t)(tog_x(t,10)>>40) || x11!=(double)(int16_t)(tog_x(t,11)>>40) || x12!=(uint16_t)(uint64_t)(tog_x(t,12)>>40) || x13!=(int64_t)(uint64_t)(tog_x(t,13)>>40)) badtog(t,"tgv13"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv13(t) t->a, t->b, (uint32_t)(uint64_t)(tog_x(t,3)>>40), (uint8_t)(uint64_t)(tog_x(t,4)>>40), (double)(int16_t)(tog_x(t,5)>>40), (uint16_t)(uint64_t)(tog_x(t,6)>>40), t, (float)(int16_t)(tog_x(t,8)>>40), (uint32_t)(uint64_t)(tog_x(t,9)>>40), (uint8_t)(uint64_t)(tog_x(t,10)>>40), (double)(int16_t)(tog_x(t,11)>>40), (uint16_t)(uint64_t)(tog_x(t,12)>>40), (int64_t)(uint64_t)(tog_x(t,13)>>40)
TASK_14(uint64_t, tgt14, uint64_t, a, uint32_t, b, uint32_t, x3, uint8_t, x4, double, x5, uint16_t, x6, Tog*, t, float, x8, uint32_t, x9, uint8_t, x10, double, x11, uint16_t, x12, int64_t, x13, float, x14) { if (x3!=(uint32_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(uint8_t)(uint64_t)(tog_x(t,4)>>40) || x5!=(double)(int16_t)(tog_x(t,5)>>40) || x6!=(uint16_t)(uint64_t)(tog_x(t,6)>>40) || x8!=(float)(int16_t)(tog_x(t,8)>>40) || x9!=(uint32_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(uint8_t)(uint64_t)(tog_x(t,10)>>40) || x11!=(double)(int16_t)(tog_x(t,11)>>40) || x12!=(uint16_t)(uint64_t)(tog_x(t,12)>>40) || x13!=(int64_t)(uint64_t)(tog_x(t,13)>>40) || x14!=(float)(int16_t)(tog_x(t,14)>>40)) badtog(t,"tgt14"); tog_body(__lace_worker, __lace_dq_head, t, a, b); return t->a; }
#define AR_tgt14(t) t->a, t->b, (uint32_t)(uint64_t)(tog_x(t,3)>>40), (uint8_t)(uint64_t)(tog_x(t,4)>>40), (double)(int16_t)(tog_x(t,5)>>40), (uint16_t)(uint64_t)(tog_x(t,6)>>40), t, (float)(int16_t)(tog_x(t,8)>>40), (uint32_t)(uint64_t)(tog_x(t,9)>>40), (uint8_t)(uint64_t)(tog_x(t,10)>>40), (double)(int16_t)(tog_x(t,11)>>40), (uint16_t)(uint64_t)(tog_x(t,12)>>40), (int64_t)(uint64_t)(tog_x(t,13)>>40), (float)(int16_t)(tog_x(t,14)>>40)
VOID_TASK_14(tgv14, uint64_t, a, uint32_t, b, uint8_t, x3, double, x4, uint16_t, x5, int64_t, x6, float, x7, Tog*, t, uint8_t, x9, double, x10, uint16_t, x11, int64_t, x12, float, x13, uint32_t, x14) { if (x3!=(uint8_t)(uint64_t)(tog_x(t,3)>>40) || x4!=(double)(int16_t)(tog_x(t,4)>>40) || x5!=(uint16_t)(uint64_t)(tog_x(t,5)>>40) || x6!=(int64_t)(uint64_t)(tog_x(t,6)>>40) || x7!=(float)(int16_t)(tog_x(t,7)>>40) || x9!=(uint8_t)(uint64_t)(tog_x(t,9)>>40) || x10!=(double)(int16_t)(tog_x(t,10)>>40) || x11!=(uint16_t)(uint64_t)(tog_x(t,11)>>40) || x12!=(int64_t)(uint64_t)(tog_x(t,12)>>40) || x13!=(float)(int16_t)(tog_x(t,13)>>40) || x14!=(uint32_t)(uint64_t)(tog_x(t,14)>>40)) badtog(t,"tgv14"); tog_body(__lace_worker, __lace_dq_head, t, a, b); }
#define AR_tgv14(t) t->a, t->b, (uint8_t)(uint64_t)(tog_x(t,3)>>40), (double)(int16_t)(tog_x(t,4)>>40), (uint16_t)(uint64_t)(tog_x(t,5)>>40), (int64_t)(uint64_t)(tog_x(t,6)>>40), (float)(int16_t)(tog_x(t,7)>>40), t, (uint8_t)(uint64_t)(tog_x(t,9)>>40), (double)(int16_t)(tog_x(t,10)>>40), (uint16_t)(uint64_t)(tog_x(t,11)>>40), (int64_t)(uint64_t)(tog_x(t,12)>>40), (float)(int16_t)(tog_x(t,13)>>40), (uint32_t)(uint64_t)(tog_x(t,14)>>40)
#endif
#ifdef LACE14
#define EACH_TOG(X) X(2,tgt1) X(3,tgv1) X(4,tgt2) X(5,tgv2) X(6,tgt3) X(7,tgv3) X(8,tgt4) X(9,tgv4) X(10,tgt5) X(11,tgv5) X(12,tgt6) X(13,tgv6) X(14,tgt7) X(15,tgv7) X(16,tgt8) X(17,tgv8) X(18,tgt9) X(19,tgv9) X(20,tgt10) X(21,tgv10) X(22,tgt11) X(23,tgv11) X(24,tgt12) X(25,tgv12) X(26,tgt13) X(27,tgv13) X(28,tgt14) X(29,tgv14)
#else
#define EACH_TOG(X) X(2,tgt1) X(3,tgv1) X(4,tgt2) X(5,tgv2) X(6,tgt3) X(7,tgv3) X(8,tgt4) X(9,tgv4) X(10,tgt5) X(11,tgv5) X(12,tgt6) X(13,tgv6)
#endif
#define TOG_RUN(k,name) case k: TOGETHER(name, AR_##name(t)); break;
