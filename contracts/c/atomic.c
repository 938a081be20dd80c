/* The atomic operations are inline functions and macros: instantiated here for the three cell types. */
#include <Zycore/Atomic.h>
#include <pthread.h>
#define OPS(n, C, V, S) \
    V cas_##n(C* c, V a, V b) { return ZyanAtomicCompareExchange##S(c, a, b); } V inc_##n(C* c) { return ZyanAtomicIncrement##S(c); } V dec_##n(C* c) { return ZyanAtomicDecrement##S(c); } \
    V mcas_##n(C* c, V a, V b) { return ZYAN_ATOMIC_COMPARE_EXCHANGE##S(c->value, a, b); } V minc_##n(C* c) { return ZYAN_ATOMIC_INCREMENT##S(c->value); } V mdec_##n(C* c) { return ZYAN_ATOMIC_DECREMENT##S(c->value); }
OPS(p, ZyanAtomicPointer, ZyanUPointer, )
OPS(32, ZyanAtomic32, ZyanU32, 32)
OPS(64, ZyanAtomic64, ZyanU64, 64)
/* search for an interleaving: threads update one cell; every update must take effect and every returned value be unique */
#define THREADS 4
typedef struct { void* cell; int op; unsigned n; unsigned long long got; } job;
#define STRESS(T, C, V) \
    static void* work_##T(void* p) { job* j = p; C* c = j->cell; \
        for (unsigned i = 0; i < j->n; ++i) { \
            if (j->op == 0) { V o, v = (V)c->value; while ((o = cas_##T(c, v, v + 1)) != v) v = o; j->got += v + 1; } \
            else if (j->op == 1) j->got += inc_##T(c); else j->got += (V)(0 - dec_##T(c)); } \
        return 0; } \
    int stress_##T(int op, unsigned cnt) { C c = { 0 }; job j[THREADS]; pthread_t t[THREADS]; unsigned long long s = 0, m = (unsigned long long)cnt * THREADS; \
        for (int i = 0; i < THREADS; ++i) { j[i] = (job){ &c, op, cnt, 0 }; if (pthread_create(&t[i], 0, work_##T, &j[i])) return 1; } \
        for (int i = 0; i < THREADS; ++i) { pthread_join(t[i], 0); s += j[i].got; } \
        return (V)c.value == (V)(op == 2 ? 0 - m : m) && s == m * (m + 1) / 2; }
STRESS(p, ZyanAtomicPointer, ZyanUPointer)
STRESS(32, ZyanAtomic32, ZyanU32)
STRESS(64, ZyanAtomic64, ZyanU64)
