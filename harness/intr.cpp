// text -> integer: public entry points of c4/charconv.hpp
#include <c4/charconv.hpp>
using namespace c4;
#define E extern "C"
#define TYPES(X) X(u8,uint8_t) X(u16,uint16_t) X(u32,uint32_t) X(u64,uint64_t) X(i8,int8_t) X(i16,int16_t) X(i32,int32_t) X(i64,int64_t)
#define UTYPES(X) X(u8,uint8_t) X(u16,uint16_t) X(u32,uint32_t) X(u64,uint64_t)
#define ITYPES(X) X(i8,int8_t) X(i16,int16_t) X(i32,int32_t) X(i64,int64_t)
#define RD(F,N,T) E bool h_##F##_##N(const char*s,size_t n,T*o){ T v=*o; bool r=F(csubstr(s,n),&v); *o=v; return r; }
#define R(N,T) RD(read_dec,N,T) RD(read_hex,N,T) RD(read_oct,N,T) RD(read_bin,N,T) RD(from_chars,N,T) RD(atox,N,T) \
 E bool h_overflows_##N(const char*s,size_t n){ return overflows<T>(csubstr(s,n)); }
TYPES(R)
#define RU(N,T) RD(atou,N,T)
UTYPES(RU)
#define RI(N,T) RD(atoi,N,T)
ITYPES(RI)
typedef long long ll_t; typedef unsigned long long ull_t;
RD(from_chars,ll,ll_t) RD(from_chars,ull,ull_t)
E bool h_from_chars_bool(const char*s,size_t n,unsigned char*o){ bool v=*o&1; bool r=from_chars(csubstr(s,n),&v); *o=v; return r; }
E bool h_from_chars_char(const char*s,size_t n,char*o){ char v=*o; bool r=from_chars(csubstr(s,n),&v); *o=v; return r; }
E size_t h_from_chars_first_char(const char*s,size_t n,char*o){ char v=*o; size_t r=from_chars_first(csubstr(s,n),&v); *o=v; return r; }
E bool h_from_chars_ptr(const char*s,size_t n,size_t*o){ void*v=(void*)*o; bool r=from_chars(csubstr(s,n),&v); *o=(size_t)v; return r; }
E bool h_from_chars_substr(const char*s,size_t n,char*d,size_t m,size_t*o){ substr v(d,m); bool r=from_chars(csubstr(s,n),&v); o[0]=v.len; o[1]=(size_t)(v.str-d); return r; }
E bool h_from_chars_csubstr(const char*s,size_t n,size_t*o){ csubstr v("xy"); bool r=from_chars(csubstr(s,n),&v); o[0]=v.len; o[1]=(size_t)(v.str-s); return r; }
