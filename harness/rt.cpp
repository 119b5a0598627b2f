// integer -> text -> integer round trips
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4;
#define E extern "C"
#define TYPES(X) X(u8,uint8_t) X(u16,uint16_t) X(u32,uint32_t) X(u64,uint64_t) X(i8,int8_t) X(i16,int16_t) X(i32,int32_t) X(i64,int64_t)
#define RT(N,T) \
 E bool h_rt_##N(char*s,size_t n,T v,T*o){ size_t k=to_chars(substr(s,n),v); return from_chars(csubstr(s,k),o); } \
 E bool h_rt16_##N(char*s,size_t n,T v,T*o){ size_t k=xtoa(substr(s,n),v,(T)16); return from_chars(csubstr(s,k),o); } \
 E bool h_rt8_##N(char*s,size_t n,T v,T*o){ size_t k=xtoa(substr(s,n),v,(T)8); return from_chars(csubstr(s,k),o); } \
 E bool h_rt2_##N(char*s,size_t n,T v,T*o){ size_t k=xtoa(substr(s,n),v,(T)2); return from_chars(csubstr(s,k),o); } \
 E bool h_ov_##N(char*s,size_t n,T v){ size_t k=to_chars(substr(s,n),v); return overflows<T>(csubstr(s,k)); }
TYPES(RT)
