// integer -> text: public entry points of c4/charconv.hpp
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4;
#define E extern "C"
#define TYPES(X) X(u8,uint8_t) X(u16,uint16_t) X(u32,uint32_t) X(u64,uint64_t) X(i8,int8_t) X(i16,int16_t) X(i32,int32_t) X(i64,int64_t)
#define W(N,T) \
 E size_t h_write_dec_##N(char*s,size_t n,T v){ return write_dec(substr(s,n),v); } \
 E size_t h_write_hex_##N(char*s,size_t n,T v){ return write_hex(substr(s,n),v); } \
 E size_t h_write_oct_##N(char*s,size_t n,T v){ return write_oct(substr(s,n),v); } \
 E size_t h_write_bin_##N(char*s,size_t n,T v){ return write_bin(substr(s,n),v); } \
 E size_t h_to_chars_##N(char*s,size_t n,T v){ return to_chars(substr(s,n),v); } \
 E size_t h_xtoa_##N(char*s,size_t n,T v){ return xtoa(substr(s,n),v); } \
 E size_t h_xtoa10_##N(char*s,size_t n,T v){ return xtoa(substr(s,n),v,(T)10); } \
 E size_t h_xtoa16_##N(char*s,size_t n,T v){ return xtoa(substr(s,n),v,(T)16); } \
 E size_t h_xtoa8_##N(char*s,size_t n,T v){ return xtoa(substr(s,n),v,(T)8); } \
 E size_t h_xtoa2_##N(char*s,size_t n,T v){ return xtoa(substr(s,n),v,(T)2); } \
 E size_t h_wpad_dec_##N(char*s,size_t n,T v,size_t d){ return write_dec(substr(s,n),v,d); } \
 E size_t h_wpad_hex_##N(char*s,size_t n,T v,size_t d){ return write_hex(substr(s,n),v,d); } \
 E size_t h_wpad_oct_##N(char*s,size_t n,T v,size_t d){ return write_oct(substr(s,n),v,d); } \
 E size_t h_wpad_bin_##N(char*s,size_t n,T v,size_t d){ return write_bin(substr(s,n),v,d); } \
 E size_t h_xtoapad10_##N(char*s,size_t n,T v,size_t d){ return xtoa(substr(s,n),v,(T)10,d); } \
 E size_t h_xtoapad16_##N(char*s,size_t n,T v,size_t d){ return xtoa(substr(s,n),v,(T)16,d); } \
 E size_t h_xtoapad8_##N(char*s,size_t n,T v,size_t d){ return xtoa(substr(s,n),v,(T)8,d); } \
 E size_t h_xtoapad2_##N(char*s,size_t n,T v,size_t d){ return xtoa(substr(s,n),v,(T)2,d); } \
 E unsigned h_digits_dec_##N(T v){ return digits_dec(v); } \
 E unsigned h_digits_hex_##N(T v){ return digits_hex(v); } \
 E unsigned h_digits_oct_##N(T v){ return digits_oct(v); } \
 E unsigned h_digits_bin_##N(T v){ return digits_bin(v); }
TYPES(W)
E size_t h_to_chars_bool(char*s,size_t n,bool v){ return to_chars(substr(s,n),v); }
E size_t h_to_chars_char(char*s,size_t n,char v){ return to_chars(substr(s,n),v); }
E size_t h_to_chars_str(char*s,size_t n,const char*p,size_t m){ return to_chars(substr(s,n),csubstr(p,m)); }
E size_t h_to_chars_long(char*s,size_t n,long long v){ return to_chars(substr(s,n),v); }
E size_t h_to_chars_ulong(char*s,size_t n,unsigned long long v){ return to_chars(substr(s,n),v); }
#define FM(N,T) \
 E size_t h_fmtdec_##N(char*s,size_t n,T v){ return to_chars(substr(s,n),fmt::integral(v)); } \
 E size_t h_fmthex_##N(char*s,size_t n,T v){ return to_chars(substr(s,n),fmt::hex(v)); } \
 E size_t h_fmtoct_##N(char*s,size_t n,T v){ return to_chars(substr(s,n),fmt::oct(v)); } \
 E size_t h_fmtbin_##N(char*s,size_t n,T v){ return to_chars(substr(s,n),fmt::bin(v)); } \
 E size_t h_zpad_##N(char*s,size_t n,T v,size_t d){ return to_chars(substr(s,n),fmt::zpad(v,d)); } \
 E size_t h_zpadhex_##N(char*s,size_t n,T v,size_t d){ return to_chars(substr(s,n),fmt::zpad(fmt::hex(v),d)); }
FM(u8,uint8_t) FM(i16,int16_t) FM(u64,uint64_t)
