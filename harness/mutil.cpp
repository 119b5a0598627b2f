// bit, power, hash, size-conversion and memory helpers
// link: memory_util
#include <c4/memory_util.hpp>
#include <c4/hash.hpp>
#include <c4/szconv.hpp>
using namespace c4;
#define E extern "C"
#define T_(X) X(u8,uint8_t) X(u16,uint16_t) X(u32,uint32_t) X(u64,uint64_t)
#define LSB(n,t) E unsigned h_lsb_##n(t v){ return lsb<t>(v); } E unsigned h_msb_##n(t v){ return msb<t>(v); } \
  E t h_cmask_##n(t a,t b){ return contiguous_mask<t>(a,b); }
T_(LSB)
E uint64_t h_ipow_u64_u32(uint64_t b,uint32_t e){ return ipow(b,e); }
E uint64_t h_ipow_u64_i32(uint64_t b,int32_t e){ return ipow(b,e); }
E uint32_t h_ipow_u32_u64(uint32_t b,uint64_t e){ return ipow(b,e); }
E uint64_t h_ipow10_u32(uint32_t e){ return ipow<uint64_t,10>(e); }
E uint64_t h_ipow2_i32(int32_t e){ return ipow<uint64_t,int,2>(e); }
E uint64_t h_hash(const char*s,size_t n){ return hash_bytes(s,n); }
E uint32_t h_hash32(const char*s,size_t n,const char*p,size_t m){ fnv1a_t<32> f{}; f.update(s,n); f.update(p,m); return f.digest(); }
E uint64_t h_hash64(const char*s,size_t n,const char*p,size_t m){ fnv1a_t<64> f{}; f.update(s,n); f.update(p,m); return f.digest(); }
#define SZ(o,to,i,ti) E to h_sz_##o##_##i(ti v){ return szconv<to>(v); }
SZ(u8,uint8_t,u64,uint64_t) SZ(i8,int8_t,u64,uint64_t) SZ(u16,uint16_t,u32,uint32_t) SZ(i16,int16_t,u16,uint16_t) SZ(i32,int32_t,u32,uint32_t) SZ(i64,int64_t,u64,uint64_t)
SZ(u32,uint32_t,u64,uint64_t) SZ(i32,int32_t,u64,uint64_t) SZ(u64,uint64_t,u8,uint8_t) SZ(i64,int64_t,u32,uint32_t) SZ(u64,uint64_t,u64,uint64_t)
E void h_mem_repeat(char*s,size_t n,const char*p,size_t m,size_t k){ (void)n; mem_repeat(s,p,m,k); }
E void h_mem_zero(char*s,size_t n,size_t k){ (void)n; mem_zero((void*)s,k); }
E void h_mem_zero32(char*s,size_t n,size_t k){ (void)n; mem_zero((uint32_t*)s,k); }
E bool h_overlaps(const char*s,size_t n,size_t i,size_t j,size_t a,size_t b){ (void)n; return mem_overlaps(s+i,s+j,a,b); }
