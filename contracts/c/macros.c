/* Instantiates the macros of the public headers: every function body below is the expansion of one macro of
   /repo/include (or a call of one of its inline functions); nothing of it is re-implemented here. */
#include <Zycore/Comparison.h>
#include <Zycore/Defines.h>
#include <Zycore/Format.h>
#include <Zycore/Status.h>
#include <Zycore/Types.h>
#include <Zycore/Zycore.h>
#define TYPES(X) X(u8, ZyanU8) X(u16, ZyanU16) X(u32, ZyanU32) X(u64, ZyanU64) X(i8, ZyanI8) X(i16, ZyanI16) X(i32, ZyanI32) X(i64, ZyanI64)
#define UTYPES(X) X(u8, ZyanU8) X(u16, ZyanU16) X(u32, ZyanU32) X(u64, ZyanU64)
#define STYPES(X) X(i8, ZyanI8) X(i16, ZyanI16) X(i32, ZyanI32) X(i64, ZyanI64)
typedef void* const ptr_t;
#define CMP(n, t) ZYAN_DECLARE_EQUALITY_COMPARISON(gen_eq_##n, t) ZYAN_DECLARE_COMPARISON(gen_cmp_##n, t) \
    typedef struct { t before; t field; t after; } st_##n; \
    ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(fld_eq_##n, st_##n, field) ZYAN_DECLARE_COMPARISON_FOR_FIELD(fld_cmp_##n, st_##n, field)
TYPES(CMP)
CMP(bool, ZyanBool)
CMP(ptr, ptr_t)
#define DEF(n, t, N) ZyanBool def_eq_##n(const t* a, const t* b) { return ZyanEquals##N(a, b); } ZyanI32 def_cmp_##n(const t* a, const t* b) { return ZyanCompare##N(a, b); }
DEF(ptr, ptr_t, Pointer) DEF(bool, ZyanBool, Bool) DEF(u8, ZyanU8, Numeric8) DEF(u16, ZyanU16, Numeric16) DEF(u32, ZyanU32, Numeric32) DEF(u64, ZyanU64, Numeric64)
#define ARI(n, t) t min_##n(t a, t b) { return ZYAN_MIN(a, b); } t max_##n(t a, t b) { return ZYAN_MAX(a, b); }
TYPES(ARI)
#define AB(n, t) t abs_##n(t a) { return (t)ZYAN_ABS(a); }
STYPES(AB)
ZyanU64 absi64(ZyanI64 a) { return ZyanAbsI64(a); }
#define BIT(n, t) int pow2_##n(t x) { return ZYAN_IS_POWER_OF_2(x) ? 1 : 0; } int isal_##n(t x, t a) { return ZYAN_IS_ALIGNED_TO(x, a) ? 1 : 0; } \
    t alup_##n(t x, t a) { return (t)ZYAN_ALIGN_UP(x, a); } t aldn_##n(t x, t a) { return (t)ZYAN_ALIGN_DOWN(x, a); } \
    t div_##n(t x, t a) { ZYAN_DIV64(x, a); return x; } \
    /* arguments that are expressions */ \
    t min3_##n(t a, t b, t c) { return ZYAN_MIN(a, b | c); } t max3_##n(t a, t b, t c) { return ZYAN_MAX(a, b ^ c); } t aldnx_##n(t x, t y, t a) { return (t)ZYAN_ALIGN_DOWN(x | y, a); } \
    t alupx_##n(t x, t y, t a) { return (t)ZYAN_ALIGN_UP(x | y, a); } int pow2x_##n(t x, t y) { return ZYAN_IS_POWER_OF_2(x | y) ? 1 : 0; }
UTYPES(BIT)
int needs_bit(ZyanU32 n, ZyanU32 b) { return ZYAN_NEEDS_BIT(n, b) ? 1 : 0; }
int bits_to_represent(ZyanU32 n) { return ZYAN_BITS_TO_REPRESENT(n); }
ZyanStatus st_make(ZyanU32 e, ZyanU32 m, ZyanU32 c) { return ZYAN_MAKE_STATUS(e, m, c); }
ZyanU32 st_module(ZyanStatus s) { return ZYAN_STATUS_MODULE(s); }
ZyanU32 st_code(ZyanStatus s) { return ZYAN_STATUS_CODE(s); }
int st_success(ZyanStatus s) { return ZYAN_SUCCESS(s) ? 1 : 0; }
int st_failed(ZyanStatus s) { return ZYAN_FAILED(s) ? 1 : 0; }
ZyanU32 st_check(ZyanStatus s) { ZYAN_CHECK(s); return 0x12345678; }
ZyanU32 st_module_user(void) { return ZYAN_MODULE_USER; }
ZyanStatus st_named(ZyanU32 i)
{
    switch (i)
    {
    case 0: return ZYAN_STATUS_SUCCESS; case 1: return ZYAN_STATUS_TRUE; case 2: return ZYAN_STATUS_FALSE;
    case 3: return ZYAN_STATUS_FAILED; case 4: return ZYAN_STATUS_INVALID_ARGUMENT; case 5: return ZYAN_STATUS_INVALID_OPERATION;
    case 6: return ZYAN_STATUS_ACCESS_DENIED; case 7: return ZYAN_STATUS_NOT_FOUND; case 8: return ZYAN_STATUS_OUT_OF_RANGE;
    case 9: return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE; case 10: return ZYAN_STATUS_NOT_ENOUGH_MEMORY; case 11: return ZYAN_STATUS_BAD_SYSTEMCALL;
    case 12: return ZYAN_STATUS_OUT_OF_RESOURCES; case 13: return ZYAN_STATUS_MISSING_DEPENDENCY;
    case 14: return ZYAN_STATUS_ARG_NOT_UNDERSTOOD; case 15: return ZYAN_STATUS_TOO_FEW_ARGS; case 16: return ZYAN_STATUS_TOO_MANY_ARGS;
    case 17: return ZYAN_STATUS_ARG_MISSES_VALUE; default: return ZYAN_STATUS_REQUIRED_ARG_MISSING;
    }
}
ZyanU32 ver_major(ZyanU64 v) { return ZYCORE_VERSION_MAJOR(v); }
ZyanU32 ver_minor(ZyanU64 v) { return ZYCORE_VERSION_MINOR(v); }
ZyanU32 ver_patch(ZyanU64 v) { return ZYCORE_VERSION_PATCH(v); }
ZyanU32 ver_build(ZyanU64 v) { return ZYCORE_VERSION_BUILD(v); }
ZyanU64 ver_const(void) { return ZYCORE_VERSION; }
