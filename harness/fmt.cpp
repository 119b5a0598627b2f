// cat, catsep, format and the text conversions underneath
// link: memory_util
#include <c4/format.hpp>
#include <c4/substr.hpp>
using namespace c4;
#define E extern "C"
#define S(x) csubstr(x,x##n)
E size_t h_tc_str(char*s,size_t n,const char*a,size_t an){ return to_chars(substr(s,n),S(a)); }
E size_t h_tc_rw(char*s,size_t n,char*a,size_t an){ return to_chars(substr(s,n),substr(a,an)); }
E size_t h_tc_char(char*s,size_t n,char v){ return to_chars(substr(s,n),v); }
E size_t h_tc_lit(char*s,size_t n){ return to_chars(substr(s,n),"xyz"); }
E size_t h_tc_bool(char*s,size_t n,bool v){ return to_chars(substr(s,n),v); }
E size_t h_tc_alpha(char*s,size_t n,bool v){ return to_chars(substr(s,n),fmt::boolalpha(v)); }
E void h_tc_sub(char*s,size_t n,const char*a,size_t an,size_t*o){ substr r=to_chars_sub(substr(s,n),S(a)); o[0]=size_t(r.str-s); o[1]=r.len; }
E size_t h_left(char*s,size_t n,const char*a,size_t an,size_t w,char p){ return to_chars(substr(s,n),fmt::left(S(a),w,p)); }
E size_t h_right(char*s,size_t n,const char*a,size_t an,size_t w,char p){ return to_chars(substr(s,n),fmt::right(S(a),w,p)); }
E size_t h_cat1(char*s,size_t n,const char*a,size_t an){ return cat(substr(s,n),S(a)); }
E size_t h_cat2(char*s,size_t n,const char*a,size_t an,const char*b,size_t bn){ return cat(substr(s,n),S(a),S(b)); }
E size_t h_cat3(char*s,size_t n,const char*a,size_t an,char c,const char*b,size_t bn){ return cat(substr(s,n),S(a),c,S(b)); }
E size_t h_catsep2(char*s,size_t n,const char*a,size_t an,const char*b,size_t bn,const char*p,size_t pn){ return catsep(substr(s,n),S(p),S(a),S(b)); }
E size_t h_catsep3(char*s,size_t n,const char*a,size_t an,char x,const char*b,size_t bn,char p){ return catsep(substr(s,n),p,S(a),x,S(b)); }
E void h_cat_sub(char*s,size_t n,const char*a,size_t an,const char*b,size_t bn,size_t*o){ substr r=cat_sub(substr(s,n),S(a),S(b)); o[0]=size_t(r.str-s); o[1]=r.len; }
E void h_catsep_sub(char*s,size_t n,const char*a,size_t an,const char*b,size_t bn,char p,size_t*o){ substr r=catsep_sub(substr(s,n),p,S(a),S(b)); o[0]=size_t(r.str-s); o[1]=r.len; }
E size_t h_format0(char*s,size_t n,const char*f,size_t fn){ return format(substr(s,n),S(f)); }
E size_t h_format1(char*s,size_t n,const char*f,size_t fn,const char*a,size_t an,size_t p){ (void)p; return format(substr(s,n),S(f),S(a)); }
E size_t h_format2(char*s,size_t n,const char*f,size_t fn,const char*a,size_t an,char b,size_t p,size_t q){ (void)p; (void)q; return format(substr(s,n),S(f),S(a),b); }
E void h_format_sub(char*s,size_t n,const char*f,size_t fn,const char*a,size_t an,size_t p,size_t*o){ (void)p; substr r=format_sub(substr(s,n),S(f),S(a)); o[0]=size_t(r.str-s); o[1]=r.len; }
E size_t h_cat_int(char*s,size_t n,const char*a,size_t an,uint16_t v,const char*b,size_t bn){ return cat(substr(s,n),S(a),v,S(b)); }
E size_t h_catsep_int(char*s,size_t n,uint16_t v,char p,const char*a,size_t an){ return catsep(substr(s,n),p,v,S(a)); }
E size_t h_format_int(char*s,size_t n,uint16_t v){ return format(substr(s,n),"<{}>{}",v); }
E size_t h_left_int(char*s,size_t n,uint16_t v,size_t w,char p){ return to_chars(substr(s,n),fmt::left(v,w,p)); }
E size_t h_right_int(char*s,size_t n,uint16_t v,size_t w,char p){ return to_chars(substr(s,n),fmt::right(v,w,p)); }
// a container of characters of fixed capacity: [p,p+cap) is its storage, n its current size
struct Cont { char *p; size_t n, cap; size_t size() const { return n; } void resize(size_t k){ if(k > cap) __builtin_trap(); n = k; } };
inline substr to_substr(Cont &c){ return substr(c.p, c.n); }
inline csubstr to_csubstr(Cont const&c){ return csubstr(c.p, c.n); }
#define RS(nm,...) E size_t h_##nm(char*s,size_t n,size_t m,const char*a,size_t an,const char*b,size_t bn){ Cont c{s,m,n}; nm(&c,__VA_ARGS__); return c.n; }
#define RA(nm,...) E size_t h_##nm(char*s,size_t n,size_t m,const char*a,size_t an,const char*b,size_t bn,size_t*o){ Cont c{s,m,n}; csubstr r=nm(&c,__VA_ARGS__); o[0]=size_t(r.str-s); o[1]=r.len; return c.n; }
RS(catrs,S(a),S(b)) RS(catseprs,'+',S(a),S(b)) RS(formatrs,"<{}-{}>",S(a),S(b))
RA(catrs_append,S(a),S(b)) RA(catseprs_append,'+',S(a),S(b)) RA(formatrs_append,"<{}-{}>",S(a),S(b))
