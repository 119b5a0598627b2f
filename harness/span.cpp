// span, spanrs, spanrsl
#include <c4/span.hpp>
using namespace c4;
#define E extern "C"
typedef uint32_t T;
static inline void put(size_t*o,char*s,span<T> const& r){ o[0]=size_t((char*)r.data()-s); o[1]=r.size(); o[2]=r.capacity(); o[3]=0; }
static inline void put(size_t*o,char*s,spanrs<T> const& r){ o[0]=size_t((char*)r.data()-s); o[1]=r.size(); o[2]=r.capacity(); o[3]=0; }
static inline void put(size_t*o,char*s,spanrsl<T> const& r){ o[0]=size_t((char*)r.data()-s); o[1]=r.size(); o[2]=r.capacity(); o[3]=r.offset(); }
// k: size of the span, c: its capacity, f: elements before it in the block
#define MK_s span<T> v((T*)s+f,k); (void)c;
#define MK_rs spanrs<T> v((T*)s+f,k,c);
#define MK_rsl spanrsl<T> v((T*)s+f,k,c,f);
#define A char*s,size_t n,size_t f,size_t k,size_t c
#define ALL(N) \
 E void h_subspan2_##N(A,size_t i,size_t j,size_t*o){ (void)n; MK_##N put(o,s,v.subspan(i,j)); } \
 E void h_subspan1_##N(A,size_t i,size_t*o){ (void)n; MK_##N put(o,s,v.subspan(i)); } \
 E void h_range2_##N(A,size_t i,size_t j,size_t*o){ (void)n; MK_##N put(o,s,v.range(i,j)); } \
 E void h_range1_##N(A,size_t i,size_t*o){ (void)n; MK_##N put(o,s,v.range(i)); } \
 E void h_first_##N(A,size_t i,size_t*o){ (void)n; MK_##N put(o,s,v.first(i)); } \
 E void h_last_##N(A,size_t i,size_t*o){ (void)n; MK_##N put(o,s,v.last(i)); } \
 E void h_resize_##N(A,size_t i,size_t*o){ (void)n; MK_##N v.resize(i); put(o,s,v); } \
 E void h_rtrim_##N(A,size_t i,size_t*o){ (void)n; MK_##N v.rtrim(i); put(o,s,v); } \
 E void h_ltrim_##N(A,size_t i,size_t*o){ (void)n; MK_##N v.ltrim(i); put(o,s,v); } \
 E void h_compll_##N(A,size_t i,size_t j,size_t*o){ (void)n; MK_##N put(o,s,v.compll(v.range(i,j))); } \
 E void h_complr_##N(A,size_t i,size_t j,size_t*o){ (void)n; MK_##N put(o,s,v.complr(v.range(i,j))); } \
 E T h_at_##N(A,size_t i){ (void)n; MK_##N return v[i]; } \
 E T h_front_##N(A){ (void)n; MK_##N return v.front(); } \
 E T h_back_##N(A){ (void)n; MK_##N return v.back(); }
ALL(s) ALL(rs) ALL(rsl)
E void h_original(A,size_t i,size_t*o){ (void)n; MK_rsl v.ltrim(i); put(o,s,v.original()); }
E bool h_is_subspan(A,size_t i,size_t j){ (void)n; (void)c; span<T> v((T*)s+f,k), w((T*)s+i,j); return v.is_subspan(w); }
E bool h_same_span(A,size_t i,size_t j){ (void)n; (void)c; span<T> v((T*)s+f,k), w((T*)s+i,j); return v.same_span(w); }
typedef span<const uint8_t> B8;
#define CMP(nm,op) E bool h_##nm(const uint8_t*s,size_t n,const uint8_t*p,size_t m){ return B8(s,n) op B8(p,m); }
CMP(eq,==) CMP(ne,!=) CMP(lt,<) CMP(le,<=) CMP(gt,>) CMP(ge,>=)
E void h_original2(A,size_t i,size_t*o){ (void)n; MK_rsl v.ltrim(i); put(o,s,v.original<spanrs>()); }
E void h_compll_any(A,size_t i,size_t j,size_t*o){ (void)n; MK_s span<T> w((T*)s+i,j); put(o,s,v.compll(w)); }
E void h_complr_any(A,size_t i,size_t j,size_t*o){ (void)n; MK_s span<T> w((T*)s+i,j); put(o,s,v.complr(w)); }
E bool h_same_span8(A,size_t i,uint8_t j){ (void)n; (void)c; span<T> v((T*)s+f,k); span<T,uint8_t> w((T*)s+i,j); return v.same_span(w); }
template<class C> static inline void putc(size_t*o,char*s,C const& r){ o[0]=size_t((char*)r.data()-s); o[1]=r.size(); o[2]=r.capacity(); o[3]=r.byte_size(); }
E void h_conv_s(A,size_t*o){ (void)n; MK_s span<const T> r=v; putc(o,s,r); }
E void h_conv_rs(A,size_t*o){ (void)n; MK_rs spanrs<const T> r=v; putc(o,s,r); }
E void h_conv_rsl(A,size_t*o){ (void)n; MK_rsl spanrsl<const T> r=v; putc(o,s,r); }
