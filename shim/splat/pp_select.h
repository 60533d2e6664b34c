// stand-in for iboB/splat pp_select.h
#pragma once
#define I_SPLAT_CAT_(a,b) a##b
#define I_SPLAT_CAT(a,b) I_SPLAT_CAT_(a,b)
#define I_SPLAT_EMPTY()
#define I_SPLAT_NTH(_0,_1,_2,_3,_4,_5,_6,_7,_8,_9,_10,_11,_12,_13,_14,_15,_16,_17,_18,_19,_20,n,...) n
#define SPLAT_NUM_ARGS(...) I_SPLAT_NTH(dummy, ##__VA_ARGS__,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0)
#define SPLAT_PP_NUM_ARGS SPLAT_NUM_ARGS
#define I_SPLAT_IT_0(m)
#define I_SPLAT_IT_1(m, t0) m(t0,0)
#define I_SPLAT_IT_2(m, t0, t1) m(t0,0), m(t1,1)
#define I_SPLAT_IT_3(m, t0, t1, t2) m(t0,0), m(t1,1), m(t2,2)
#define I_SPLAT_IT_4(m, t0, t1, t2, t3) m(t0,0), m(t1,1), m(t2,2), m(t3,3)
#define I_SPLAT_IT_5(m, t0, t1, t2, t3, t4) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4)
#define I_SPLAT_IT_6(m, t0, t1, t2, t3, t4, t5) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5)
#define I_SPLAT_IT_7(m, t0, t1, t2, t3, t4, t5, t6) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6)
#define I_SPLAT_IT_8(m, t0, t1, t2, t3, t4, t5, t6, t7) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7)
#define I_SPLAT_IT_9(m, t0, t1, t2, t3, t4, t5, t6, t7, t8) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8)
#define I_SPLAT_IT_10(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9)
#define I_SPLAT_IT_11(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10)
#define I_SPLAT_IT_12(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11)
#define I_SPLAT_IT_13(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12)
#define I_SPLAT_IT_14(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13)
#define I_SPLAT_IT_15(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13), m(t14,14)
#define I_SPLAT_IT_16(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13), m(t14,14), m(t15,15)
#define I_SPLAT_IT_17(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13), m(t14,14), m(t15,15), m(t16,16)
#define I_SPLAT_IT_18(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13), m(t14,14), m(t15,15), m(t16,16), m(t17,17)
#define I_SPLAT_IT_19(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13), m(t14,14), m(t15,15), m(t16,16), m(t17,17), m(t18,18)
#define I_SPLAT_IT_20(m, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19) m(t0,0), m(t1,1), m(t2,2), m(t3,3), m(t4,4), m(t5,5), m(t6,6), m(t7,7), m(t8,8), m(t9,9), m(t10,10), m(t11,11), m(t12,12), m(t13,13), m(t14,14), m(t15,15), m(t16,16), m(t17,17), m(t18,18), m(t19,19)
#define SPLAT_ITERATE_WITH(m, ...) I_SPLAT_CAT(I_SPLAT_IT_, SPLAT_NUM_ARGS(__VA_ARGS__))(m, ##__VA_ARGS__)
#define SPLAT_SELECT(name, ...) I_SPLAT_CAT(name, SPLAT_NUM_ARGS(__VA_ARGS__))(__VA_ARGS__)
