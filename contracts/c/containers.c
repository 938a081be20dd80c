/* Instantiates the element-access, iteration and initialiser macros of the container headers. */
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
ZyanU32 c_vec_get(const ZyanVector* v, ZyanUSize i) { return ZYAN_VECTOR_GET(ZyanU32, v, i); }
ZyanU32 c_vec_get_expr(const ZyanVector* v, ZyanUSize i, ZyanUSize j) { return ZYAN_VECTOR_GET(ZyanU32, v, i + j) + 1; }
ZyanUSize c_vec_collect(const ZyanVector* v, ZyanU32* out) { ZyanUSize n = 0; ZYAN_VECTOR_FOREACH(ZyanU32, v, item, out[n++] = item;) return n; }
ZyanUSize c_vec_assign(ZyanVector* v, ZyanU32 d) { ZyanUSize n = 0; ZYAN_VECTOR_FOREACH_MUTABLE(ZyanU32, v, item, *item = d; ++n;) return n; }
ZyanUSize c_vec_find(const ZyanVector* v, ZyanU32 x) { ZyanUSize n = 0; ZYAN_VECTOR_FOREACH(ZyanU32, v, item, if (item == x) { break; } ++n;) return n; }
ZyanU32 c_list_get(const ZyanListNode* n) { return ZYAN_LIST_GET(ZyanU32, n); }
#define VEC_EMPTY(x) (!(x).allocator && !(x).growth_factor && !(x).shrink_threshold && !(x).size && !(x).capacity && !(x).element_size && !(x).destructor && !(x).data)
int c_vec_init(void) { ZyanVector x = ZYAN_VECTOR_INITIALIZER; return VEC_EMPTY(x); }
int c_str_init(void) { ZyanString x = ZYAN_STRING_INITIALIZER; return !x.flags && VEC_EMPTY(x.vector); }
int c_list_init(void) { ZyanList x = ZYAN_LIST_INITIALIZER; return !x.allocator && !x.size && !x.element_size && !x.destructor && !x.head && !x.tail && !x.buffer && !x.capacity && !x.first_unused; }
static const ZyanStringView VIEW = ZYAN_DEFINE_STRING_VIEW("view");
ZyanStatus c_view_size(ZyanUSize* n) { return ZyanStringViewGetSize(&VIEW, n); }
char c_view_char(ZyanUSize i) { const char* p = 0; (void)ZyanStringViewGetData(&VIEW, &p); return p[i]; }
const ZyanStringView* c_to_view(ZyanString* s) { return ZYAN_STRING_TO_VIEW(s); }
