// base64 and UTF-8
// link: base64 utf
#include <c4/base64.hpp>
#include <c4/utf.hpp>
using namespace c4;
#define E extern "C"
E size_t h_b64_encode(char*s,size_t n,const char*p,size_t m){ return base64_encode(substr(s,n), cblob(p,m)); }
E size_t h_b64_tochars(char*s,size_t n,const char*p,size_t m){ return to_chars(substr(s,n), fmt::cbase64(csubstr(p,m))); }
E size_t h_b64_decode(const char*s,size_t n,char*p,size_t m){ return base64_decode(csubstr(s,n), blob(p,m)); }
E size_t h_b64_fromchars(const char*s,size_t n,char*p,size_t m){ fmt::base64_wrapper w(blob(p,m)); return from_chars(csubstr(s,n), &w); }
E bool h_b64_valid(const char*s,size_t n){ return base64_valid(csubstr(s,n)); }
// encode into a large enough scratch and decode again
E size_t h_b64_round(const char*p,size_t m,char*s,size_t n,char*q,size_t k){ size_t e=base64_encode(substr(s,n), cblob(p,m)); return base64_decode(csubstr(s,e), blob(q,k)); }
E size_t h_utf_cp(char*s,size_t n,uint32_t c){ return decode_code_point((uint8_t*)s,n,c); }
E void h_utf_str(char*s,size_t n,const char*p,size_t m,size_t*o){ substr r=decode_code_point(substr(s,n),csubstr(p,m)); o[0]=r.str?size_t(r.str-s):0; o[1]=r.len; o[2]=(r.str==nullptr); }
