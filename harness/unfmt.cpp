// uncat, uncatsep, unformat and the text readers underneath
#include <c4/format.hpp>
#include <c4/substr.hpp>
using namespace c4;
#define E extern "C"
#define S(x) csubstr(x,x##n)
E bool h_fc_char(const char*s,size_t sn,char*o){ return from_chars(S(s),o); }
E size_t h_fcf_char(const char*s,size_t sn,char*o){ return from_chars_first(S(s),o); }
E bool h_fc_bool(const char*s,size_t sn,bool*o){ bool v=false; bool r=from_chars(S(s),&v); *o=v; return r; }
E size_t h_fcf_bool(const char*s,size_t sn,size_t p,size_t q,bool*o){ (void)p; (void)q; bool v=false; size_t r=from_chars_first(S(s),&v); *o=v; return r; }
E bool h_fc_cstr(const char*s,size_t sn,size_t*o){ csubstr v; bool r=from_chars(S(s),&v); o[0]=size_t(v.str-s); o[1]=v.len; return r; }
E size_t h_fcf_cstr(char*s,size_t sn,size_t p,size_t q,size_t*o){ (void)p; (void)q; csubstr v("..."); size_t r=from_chars_first(substr(s,sn),&v); if(r!=csubstr::npos){ o[0]=size_t(v.str-s); o[1]=v.len; } return r; }
E bool h_fc_str(const char*s,size_t sn,char*d,size_t dn,size_t*o){ substr v(d,dn); bool r=from_chars(S(s),&v); o[0]=size_t(v.str-d); o[1]=v.len; return r; }
E size_t h_fcf_str(const char*s,size_t sn,char*d,size_t dn,size_t p,size_t q){ (void)p; (void)q; substr v(d,dn); return from_chars_first(S(s),&v); }
E size_t h_uncat1(const char*s,size_t sn,char*o){ return uncat(S(s),o[0]); }
E size_t h_uncat3(const char*s,size_t sn,char*o){ return uncat(S(s),o[0],o[1],o[2]); }
E size_t h_uncatsep3(const char*s,size_t sn,char*o){ return uncatsep(S(s),o[0],o[1],o[2],o[3]); }
E size_t h_unformat1(const char*s,size_t sn,const char*f,size_t fn,size_t p,char*o){ (void)p; return unformat(S(s),S(f),o[0]); }
E size_t h_unformat2(const char*s,size_t sn,const char*f,size_t fn,size_t p,size_t q,char*o){ (void)p; (void)q; return unformat(S(s),S(f),o[0],o[1]); }
E size_t h_uncat_str(const char*s,size_t sn,char*d,size_t dn,size_t p,size_t q,char*o){ (void)p; (void)q; substr v(d,dn); return uncat(S(s),v,o[0]); }
