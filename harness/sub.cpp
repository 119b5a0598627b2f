// string views: public members of c4/substr.hpp (search, comparison, sub-selection)
#include <c4/substr.hpp>
using namespace c4;
#define E extern "C"
#define S const char*s,size_t n
#define PT const char*p,size_t m
#define X csubstr(s,n)
#define Y csubstr(p,m)
#define V(expr) auto r=(expr); o[0]=r.str?size_t(r.str-s):0; o[1]=r.len; o[2]=(r.str==nullptr);
// search
E size_t h_find_c(S,char c,size_t b){ return X.find(c,b); }
E size_t h_find_c0(S,char c){ return X.find(c); }
E size_t h_find_s(S,PT,size_t b){ return X.find(Y,b); }
E size_t h_find_s0(S,PT){ return X.find(Y); }
E size_t h_first_of_c(S,char c,size_t b){ return X.first_of(c,b); }
E size_t h_last_of_c(S,char c,size_t b){ return X.last_of(c,b); }
E size_t h_last_of_c0(S,char c){ return X.last_of(c); }
E size_t h_first_of_s(S,PT,size_t b){ return X.first_of(Y,b); }
E size_t h_last_of_s(S,PT,size_t b){ return X.last_of(Y,b); }
E size_t h_last_of_s0(S,PT){ return X.last_of(Y); }
E size_t h_first_not_of_c0(S,char c){ return X.first_not_of(c); }
E size_t h_first_not_of_c(S,char c,size_t b){ return X.first_not_of(c,b); }
E size_t h_last_not_of_c0(S,char c){ return X.last_not_of(c); }
E size_t h_last_not_of_c(S,char c,size_t b){ return X.last_not_of(c,b); }
E size_t h_first_not_of_s0(S,PT){ return X.first_not_of(Y); }
E size_t h_first_not_of_s(S,PT,size_t b){ return X.first_not_of(Y,b); }
E size_t h_last_not_of_s0(S,PT){ return X.last_not_of(Y); }
E size_t h_last_not_of_s(S,PT,size_t b){ return X.last_not_of(Y,b); }
E size_t h_count_c(S,char c,size_t b){ return X.count(c,b); }
E size_t h_count_s(S,PT,size_t b){ return X.count(Y,b); }
E void h_select_c(S,char c,size_t b,size_t*o){ V(X.select(c,b)) }
E void h_select_s(S,PT,size_t b,size_t*o){ V(X.select(Y,b)) }
E void h_first_of_any2(S,PT,const char*q,size_t k,size_t*o){ auto r=X.first_of_any(Y,csubstr(q,k)); o[0]=r.which; o[1]=r.pos; o[2]=bool(r); }
E void h_first_of_any3(S,PT,const char*q,size_t k,const char*u,size_t l,size_t*o){ auto r=X.first_of_any(Y,csubstr(q,k),csubstr(u,l)); o[0]=r.which; o[1]=r.pos; o[2]=bool(r); }
// begins / ends
E bool h_begins_c(S,char c){ return X.begins_with(c); }
E bool h_begins_cn(S,char c,size_t b){ return X.begins_with(c,b); }
E bool h_begins_s(S,PT){ return X.begins_with(Y); }
E bool h_begins_any(S,PT){ return X.begins_with_any(Y); }
E bool h_ends_c(S,char c){ return X.ends_with(c); }
E bool h_ends_cn(S,char c,size_t b){ return X.ends_with(c,b); }
E bool h_ends_s(S,PT){ return X.ends_with(Y); }
E bool h_ends_any(S,PT){ return X.ends_with_any(Y); }
// comparison
E int h_compare_s(S,PT){ return X.compare(Y); }
E int h_compare_p(S,PT){ return X.compare(p,m); }
E int h_compare_c(S,char c){ return X.compare(c); }
E bool h_eq_s(S,PT){ return X==Y; }
E bool h_ne_s(S,PT){ return X!=Y; }
E bool h_lt_s(S,PT){ return X<Y; }
E bool h_gt_s(S,PT){ return X>Y; }
E bool h_le_s(S,PT){ return X<=Y; }
E bool h_ge_s(S,PT){ return X>=Y; }
E bool h_eq_c(S,char c){ return X==c; }
E bool h_ne_c(S,char c){ return X!=c; }
E bool h_lt_c(S,char c){ return X<c; }
E bool h_gt_c(S,char c){ return X>c; }
E bool h_le_c(S,char c){ return X<=c; }
E bool h_ge_c(S,char c){ return X>=c; }
E bool h_ceq_s(S,char c){ return c==X; }
E bool h_cne_s(S,char c){ return c!=X; }
E bool h_clt_s(S,char c){ return c<X; }
E bool h_cgt_s(S,char c){ return c>X; }
E bool h_cle_s(S,char c){ return c<=X; }
E bool h_cge_s(S,char c){ return c>=X; }
E bool h_eq_lit(S){ return X=="foo"; }
E bool h_ne_lit(S){ return X!="foo"; }
E bool h_lt_lit(S){ return X<"foo"; }
E bool h_gt_lit(S){ return X>"foo"; }
E bool h_le_lit(S){ return X<="foo"; }
E bool h_ge_lit(S){ return X>="foo"; }
E bool h_liteq(S){ return "foo"==X; }
E bool h_litne(S){ return "foo"!=X; }
E bool h_litlt(S){ return "foo"<X; }
E bool h_litgt(S){ return "foo">X; }
E bool h_litle(S){ return "foo"<=X; }
E bool h_litge(S){ return "foo">=X; }
E bool h_eq_rw(char*s,size_t n,PT){ return substr(s,n)==Y; }
E bool h_lt_rw(char*s,size_t n,PT){ return substr(s,n)<Y; }
// queries
E bool h_has_str(S){ return X.has_str(); }
E bool h_empty(S){ return X.empty(); }
E bool h_not_empty(S){ return X.not_empty(); }
E char h_at(S,size_t b){ return X[b]; }
E char h_front(S){ return X.front(); }
E char h_back(S){ return X.back(); }
E bool h_is_sub(S,size_t i,size_t j,size_t k,size_t l){ return csubstr(s+i,j).is_sub(csubstr(s+k,l)); }
E bool h_is_super(S,size_t i,size_t j,size_t k,size_t l){ return csubstr(s+i,j).is_super(csubstr(s+k,l)); }
E bool h_overlaps(S,size_t i,size_t j,size_t k,size_t l){ return csubstr(s+i,j).overlaps(csubstr(s+k,l)); }
// sub-selection
E void h_sub1(S,size_t i,size_t*o){ V(X.sub(i)) }
E void h_sub2(S,size_t i,size_t j,size_t*o){ V(X.sub(i,j)) }
E void h_range(S,size_t i,size_t j,size_t*o){ V(X.range(i,j)) }
E void h_first(S,size_t i,size_t*o){ V(X.first(i)) }
E void h_last(S,size_t i,size_t*o){ V(X.last(i)) }
E void h_offs(S,size_t i,size_t j,size_t*o){ V(X.offs(i,j)) }
E void h_left_of(S,size_t i,size_t*o){ V(X.left_of(i)) }
E void h_left_of_inc(S,size_t i,bool b,size_t*o){ V(X.left_of(i,b)) }
E void h_right_of(S,size_t i,size_t*o){ V(X.right_of(i)) }
E void h_right_of_inc(S,size_t i,bool b,size_t*o){ V(X.right_of(i,b)) }
E void h_left_of_sub(S,size_t i,size_t j,size_t*o){ V(X.left_of(X.sub(i,j))) }
E void h_right_of_sub(S,size_t i,size_t j,size_t*o){ V(X.right_of(X.sub(i,j))) }
E void h_triml_c(S,char c,size_t*o){ V(X.triml(c)) }
E void h_trimr_c(S,char c,size_t*o){ V(X.trimr(c)) }
E void h_trim_c(S,char c,size_t*o){ V(X.trim(c)) }
E void h_triml_s(S,PT,size_t*o){ V(X.triml(Y)) }
E void h_trimr_s(S,PT,size_t*o){ V(X.trimr(Y)) }
E void h_trim_s(S,PT,size_t*o){ V(X.trim(Y)) }
E void h_stripl(S,PT,size_t*o){ V(X.stripl(Y)) }
E void h_stripr(S,PT,size_t*o){ V(X.stripr(Y)) }
E void h_unquoted(S,size_t*o){ V(X.unquoted()) }
E void h_pair_range(S,char a,char b,size_t*o){ V(X.pair_range(a,b)) }
E void h_pair_range_esc(S,char a,char b,size_t*o){ V(X.pair_range_esc(a,b)) }
E void h_pair_range_nested(S,char a,char b,size_t*o){ V(X.pair_range_nested(a,b)) }
// construction
E void h_from_cstr(const char*s,size_t n,size_t*o){ (void)n; V(to_csubstr(s)) }
E void h_ctor_cstr(const char*s,size_t n,size_t*o){ (void)n; V(csubstr(s)) }
E void h_ctor_pp(S,size_t i,size_t j,size_t*o){ V(csubstr(s+i,s+j)) }
E void h_assign_pp(S,size_t i,size_t j,size_t*o){ csubstr x; x.assign(s+i,s+j); V(x) }
E void h_assign_pn(S,size_t*o){ csubstr x; x.assign(s,n); V(x) }
E void h_clear(S,size_t*o){ csubstr x(s,n); x.clear(); V(x) }
E void h_ctor_rw(char*s,size_t n,size_t*o){ substr x(s,n); csubstr y=x; V(y) }
// split / pop
E bool h_next_split(S,char c,size_t b,size_t*o){ csubstr out; size_t pos=b; bool ok=X.next_split(c,&pos,&out); o[3]=pos; if(ok){ V(out) } return ok; }
E void h_pop_right(S,char c,bool b,size_t*o){ V(X.pop_right(c,b)) }
E void h_pop_left(S,char c,bool b,size_t*o){ V(X.pop_left(c,b)) }
E void h_gpop_left(S,char c,bool b,size_t*o){ V(X.gpop_left(c,b)) }
E void h_gpop_right(S,char c,bool b,size_t*o){ V(X.gpop_right(c,b)) }
E void h_gpop_left2(S,char c,size_t*o){ { V(X.gpop_left(c,true)) } { auto r=X.pop_right(c,true); o[3]=r.str?size_t(r.str-s):0; o[4]=r.len; } }
E void h_gpop_right2(S,char c,size_t*o){ { V(X.gpop_right(c,true)) } { auto r=X.pop_left(c,true); o[3]=r.str?size_t(r.str-s):0; o[4]=r.len; } }
E void h_split_begin(S,char c,size_t b,size_t*o){ auto sp=X.split(c,b); auto it=sp.begin(); o[3]=(it==sp.end()); V(*it) }
E void h_split_next(S,char c,size_t b,size_t*o){ auto sp=X.split(c,b); auto it=sp.begin(); o[4]=size_t(it->str-s); o[5]=it->len; ++it; o[3]=!(it!=sp.end()); V(*it) }
E void h_basename(S,char c,size_t*o){ V(X.basename(c)) }
E void h_dirname(S,char c,size_t*o){ V(X.dirname(c)) }
E void h_name_wo_extshort(S,size_t*o){ V(X.name_wo_extshort()) }
E void h_name_wo_extlong(S,size_t*o){ V(X.name_wo_extlong()) }
E void h_extshort(S,size_t*o){ V(X.extshort()) }
E void h_extlong(S,size_t*o){ V(X.extlong()) }
// numbers
E void h_first_non_empty_span(S,size_t*o){ V(X.first_non_empty_span()) }
E void h_first_uint_span(S,size_t*o){ V(X.first_uint_span()) }
E void h_first_int_span(S,size_t*o){ V(X.first_int_span()) }
E void h_first_real_span(S,size_t*o){ V(X.first_real_span()) }
#define NE auto q=X.first_non_empty_span(); o[3]=q.str?size_t(q.str-s):0; o[4]=q.len;
E void h_integral_span(S,size_t i,size_t*o){ V(X._first_integral_span(i)) }
E void h_first_uint_span2(S,size_t*o){ NE V(X.first_uint_span()) }
E void h_first_int_span2(S,size_t*o){ NE V(X.first_int_span()) }
E void h_first_real_span2(S,size_t*o){ NE V(X.first_real_span()) }
E bool h_is_number(S){ return X.is_number(); }
E bool h_is_real(S){ return X.is_real(); }
E bool h_is_integer(S){ return X.is_integer(); }
E bool h_is_unsigned_integer(S){ return X.is_unsigned_integer(); }
// mutation
E void h_fill(char*s,size_t n,char c){ substr(s,n).fill(c); }
E void h_toupper(char*s,size_t n){ substr(s,n).toupper(); }
E void h_tolower(char*s,size_t n){ substr(s,n).tolower(); }
E void h_copy_from0(char*s,size_t n,PT){ substr(s,n).copy_from(Y); }
E void h_copy_from(char*s,size_t n,PT,size_t i,size_t j){ substr(s,n).copy_from(Y,i,j); }
E void h_reverse(char*s,size_t n){ substr(s,n).reverse(); }
E void h_reverse_sub(char*s,size_t n,size_t i,size_t j){ substr(s,n).reverse_sub(i,j); }
E void h_reverse_range(char*s,size_t n,size_t i,size_t j){ substr(s,n).reverse_range(i,j); }
E void h_erase(char*s,size_t n,size_t i,size_t j,size_t*o){ V(substr(s,n).erase(i,j)) }
E void h_erase_range(char*s,size_t n,size_t i,size_t j,size_t*o){ V(substr(s,n).erase_range(i,j)) }
E void h_erase_sub(char*s,size_t n,size_t i,size_t j,size_t*o){ substr x(s,n); V(x.erase(csubstr(s+i,j))) }
E size_t h_replace_c(char*s,size_t n,char c,char d,size_t b){ return substr(s,n).replace(c,d,b); }
E size_t h_replace_s(char*s,size_t n,PT,char d,size_t b){ return substr(s,n).replace(Y,d,b); }
E size_t h_replace_all(S,char*t,size_t k,PT,const char*q,size_t l,size_t b){ return X.replace_all(substr(t,k),Y,csubstr(q,l),b); }
