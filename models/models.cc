// Models of the C/C++ runtime functions that /repo's sources call, linked into the
// bitcode that the symbolic executor runs. Compiled with the shim headers.
#include <string>
#include <stdexcept>
#include <system_error>
#include <exception>
#include <new>
#include <map>
#include <list>
#include <chrono>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <cstring>
#include <cstdio>
#include <getopt.h>
#include <iconv.h>
#include "symx.h"

template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);
namespace std {
// exceptions -------------------------------------------------------------------
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
static char* dupmsg(const char* s){ size_t n=strlen(s)+1; char* p=(char*)malloc(n); memcpy(p,s,n); return p; }
__cow_string::__cow_string(): _M_p(dupmsg("")) {}
__cow_string::__cow_string(const std::string& s): _M_p(dupmsg(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t): _M_p(dupmsg(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept: _M_p(dupmsg(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p=dupmsg(o._M_p); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept: _M_p(o._M_p) { o._M_p=dupmsg(""); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p=o._M_p; return *this; }
#define EXC(T,B) T::T(const string& s):B(s){} T::T(const char* s):B(s){} T::~T() noexcept {} T::T(const T& o):B(o){} T& T::operator=(const T& o){ B::operator=(o); return *this; } T::T(T&& o) noexcept:B(static_cast<B&&>(o)){} T& T::operator=(T&& o) noexcept { B::operator=(static_cast<B&&>(o)); return *this; }
#define EXCS(T,B) T::T(const string& s):B(s){} T::T(const char* s):B(s){} T::~T() noexcept {}
logic_error::logic_error(const string& s):_M_msg(s){} logic_error::logic_error(const char* s):_M_msg(s,0){} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept:_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; } logic_error::logic_error(logic_error&& o) noexcept:_M_msg(o._M_msg){} logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::runtime_error(const string& s):_M_msg(s){} runtime_error::runtime_error(const char* s):_M_msg(s,0){} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept:_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; } runtime_error::runtime_error(runtime_error&& o) noexcept:_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg=o._M_msg; return *this; }
EXCS(out_of_range,logic_error) EXCS(length_error,logic_error) EXCS(invalid_argument,logic_error) EXCS(domain_error,logic_error) EXCS(range_error,runtime_error) EXCS(overflow_error,runtime_error) EXCS(underflow_error,runtime_error)
struct symx_cat : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "error"; } };
inline namespace _V2 {
error_category::~error_category() {}
__cow_string error_category::_M_message(int) const { return __cow_string("error",5); }
bool error_category::equivalent(int a, const error_condition& c) const noexcept { return c.value()==a; }
bool error_category::equivalent(const error_code& c, int b) const noexcept { return c.value()==b; }
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v,*this); }
const error_category& system_category() noexcept { static symx_cat c; return c; }
const error_category& generic_category() noexcept { static symx_cat c; return c; }
}
system_error::~system_error() noexcept {}
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_array_new_length(); }
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_range_error(const char* s){ throw range_error(s); }
void __throw_overflow_error(const char* s){ throw overflow_error(s); }
struct bad_function_call : exception { ~bad_function_call() noexcept override {} };
void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_bad_cast(){ throw runtime_error("bad_cast"); }
void __throw_bad_optional_access(){ throw runtime_error("bad_optional"); }
void __throw_system_error(int){ throw runtime_error("system_error"); }
struct bad_variant_access;
// red-black tree -------------------------------------------------------------------
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { if (x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { auto* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if (x->_M_left){ auto* y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { auto* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rl(_Rb_tree_node_base* x,_Rb_tree_node_base*& root){ auto* y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rr(_Rb_tree_node_base* x,_Rb_tree_node_base*& root){ auto* y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) noexcept {
  auto*& root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ auto* xpp=x->_M_parent->_M_parent;
    if(x->_M_parent==xpp->_M_left){ auto* y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rl(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rr(xpp,root); } }
    else { auto* y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rr(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rl(xpp,root); } } }
  root->_M_color=_S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) noexcept {   // keeps order and links; does not rebalance
  auto*& root=h._M_parent; auto*& lm=h._M_left; auto*& rm=h._M_right; auto* y=z; _Rb_tree_node_base* x=0;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; auto c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { auto* m=x; while(m->_M_left) m=m->_M_left; lm=m; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { auto* m=x; while(m->_M_right) m=m->_M_right; rm=m; } } }
  if(root) root->_M_color=_S_black; return y;
}
namespace __detail {
void _List_node_base::_M_reverse() noexcept { auto* t=this; do { auto* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ auto* n=x._M_next; x._M_next=y._M_next; y._M_next=n; auto* p=x._M_prev; x._M_prev=y._M_prev; y._M_prev=p; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { auto* n=_M_next; auto* p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* f,_List_node_base* l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
}
size_t _Hash_bytes(const void* p,size_t n,size_t seed){ size_t h=seed; for(size_t i=0;i<n;i++) h=h*31+((const unsigned char*)p)[i]; return h; }
namespace chrono { inline namespace _V2 { 
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(symx_now_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(symx_now_ns())); }
} }
static symx_stdinbuf g_inb; static symx_stdoutbuf g_outb(1), g_errb(2);
istream cin(&g_inb); ostream cout(&g_outb); ostream cerr(&g_errb); ostream clog(&g_errb);
}  // namespace std
#include <unordered_map>
namespace std { namespace __detail {
// bucket counts as in libstdc++, so that iteration order is the same
static const size_t primes_[]={2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if(n==0) return 1; for(size_t p: primes_) if(p>=n && !(n<14 && (p==17))){ _M_next_resize=p; return p; } _M_next_resize=n|1; return n|1; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t want=ne+ni; if(!_M_next_resize && want<11) want=11; if(want>=nb) return {true,_M_next_bkt(want+1>nb*2? want+1: nb*2)}; _M_next_resize=nb; } return {false,0}; }
} }

extern "C" {
// clock -------------------------------------------------------------------------
static long (*now_hook)() = nullptr;
void symx_set_clock(long (*f)()){ now_hook=f; }
long symx_now_ns(){ return now_hook? now_hook(): 1700000000000000000L; }
// stdio --------------------------------------------------------------------------
static char std_tok[3]; FILE* stdin=(FILE*)&std_tok[0]; FILE* stdout=(FILE*)&std_tok[1]; FILE* stderr=(FILE*)&std_tok[2];
static const char* in_p=nullptr; static unsigned long in_n=0, in_i=0;
void symx_set_stdin(const char* p, unsigned long n){ in_p=p; in_n=n; in_i=0; std::cin.clear(); new (&std::g_inb) std::symx_stdinbuf(); }
int getchar(void){ if(in_i<in_n) return (unsigned char)in_p[in_i++]; return -1; }
int getc(FILE*){ return getchar(); } int fgetc(FILE*){ return getchar(); } int _IO_getc(FILE*){ return getchar(); } int getchar_unlocked(void){ return getchar(); } int getc_unlocked(FILE*){ return getchar(); }
static std::string* out_buf[3]={nullptr,nullptr,nullptr};
}
void symx_capture_(int fd, std::string* s){ out_buf[fd]=s; }
extern "C" {
void symx_out_write(int fd,const char* p,unsigned long n){ if(out_buf[fd]) out_buf[fd]->append(p,n); }
int putchar(int c){ char x=(char)c; symx_out_write(1,&x,1); return (unsigned char)c; }
int putc(int c,FILE*f){ char x=(char)c; symx_out_write(f==stderr?2:1,&x,1); return (unsigned char)c; } int fputc(int c,FILE*f){ return putc(c,f); } int _IO_putc(int c,FILE*f){ return putc(c,f); } int putchar_unlocked(int c){ return putchar(c); }
int puts(const char*s){ symx_out_write(1,s,strlen(s)); symx_out_write(1,"\n",1); return 1; } int fputs(const char*s,FILE*f){ symx_out_write(f==stderr?2:1,s,strlen(s)); return 1; }
size_t fwrite(const void*p,size_t a,size_t b,FILE*f){ symx_out_write(f==stderr?2:1,(const char*)p,a*b); return b; }
int fflush(FILE*){ return 0; } int fileno(FILE*) { return 0; } int ferror(FILE*){ return 0; }
// files --------------------------------------------------------------------------
static struct { const char* n; const char* p; unsigned long sz; } files[64]; static int nfiles=0;
void symx_add_file(const char* name,const char* p,unsigned long n){ files[nfiles].n=name; files[nfiles].p=p; files[nfiles].sz=n; nfiles++; }
void* symx_file_open(const char* name,unsigned long* sz){ for(int i=0;i<nfiles;i++) if(!strcmp(files[i].n,name)){ *sz=files[i].sz; return (void*)files[i].p; } return nullptr; }
// errno / misc ---------------------------------------------------------------------
static int the_errno; int* __errno_location(void) noexcept { return &the_errno; }
char __libc_single_threaded=1;
char* strerror(int) noexcept { return (char*)"error"; }
int isatty(int) noexcept { return 0; }
char* getenv(const char*) noexcept { return nullptr; }
char* setlocale(int,const char*) noexcept { return (char*)"C"; }
// ctype ------------------------------------------------------------------------------
int tolower(int c) noexcept { return c + (((unsigned)c-'A'<26u)?32:0); } int toupper(int c) noexcept { return c - (((unsigned)c-'a'<26u)?32:0); }
int isdigit(int c) noexcept { return (unsigned)c-'0'<10u; } int isalpha(int c) noexcept { return ((unsigned)c|32)-'a'<26u; } int isalnum(int c) noexcept { return ((unsigned)c-'0'<10u)|(((unsigned)c|32)-'a'<26u); } int isspace(int c) noexcept { return (c==' ')|((unsigned)c-9<5u); } int isxdigit(int c) noexcept { return ((unsigned)c-'0'<10u)|(((unsigned)c|32)-'a'<6u); } int isupper(int c) noexcept { return (unsigned)c-'A'<26u; } int islower(int c) noexcept { return (unsigned)c-'a'<26u; } int isprint(int c) noexcept { return (unsigned)c-32<95u; } int ispunct(int c) noexcept { return ((unsigned)c-33<94u)&!isalnum(c); } int iscntrl(int c) noexcept { return ((unsigned)c<32)|(c==127); }
// strings ------------------------------------------------------------------------------
int strcmp(const char*a,const char*b) noexcept { for(;;a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int strncmp(const char*a,const char*b,size_t n) noexcept { for(;n;n--,a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
char* m_strchr(const char*s,int c) noexcept __asm("strchr"); char* m_strchr(const char*s,int c) noexcept { for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return nullptr; } }
char* m_strrchr(const char*s,int c) noexcept __asm("strrchr"); char* m_strrchr(const char*s,int c) noexcept { const char*r=nullptr; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* strcpy(char*d,const char*s) noexcept { char*r=d; while((*d++=*s++)); return r; }
char* strncpy(char*d,const char*s,size_t n) noexcept { size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char*d,const char*s) noexcept { strcpy(d+strlen(d),s); return d; }
char* m_strstr(const char*h,const char*n) noexcept __asm("strstr"); char* m_strstr(const char*h,const char*n) noexcept { size_t k=strlen(n); for(;;h++){ if(!strncmp(h,n,k)) return (char*)h; if(!*h) return nullptr; } }
size_t strspn(const char*s,const char*a) noexcept { size_t n=0; while(s[n]&&strchr(a,s[n])) n++; return n; }
size_t strcspn(const char*s,const char*a) noexcept { size_t n=0; while(s[n]&&!strchr(a,s[n])) n++; return n; }
char* m_strpbrk(const char*s,const char*a) noexcept __asm("strpbrk"); char* m_strpbrk(const char*s,const char*a) noexcept { s+=strcspn(s,a); return *s? (char*)s: nullptr; }
char* strtok_r(char*s,const char*d,char**sp) noexcept { if(!s) s=*sp; s+=strspn(s,d); if(!*s){ *sp=s; return nullptr; } char*r=s; s+=strcspn(s,d); if(*s) *s++=0; *sp=s; return r; }
char* strtok(char*s,const char*d) noexcept { static char*st; return strtok_r(s,d,&st); }
int strcasecmp(const char*a,const char*b) noexcept { for(;;a++,b++){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y) return x-y; if(!x) return 0; } }
int strncasecmp(const char*a,const char*b,size_t n) noexcept { for(;n;n--,a++,b++){ int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
char* strncat(char*d,const char*s,size_t n) noexcept { char*e=d+strlen(d); while(n--&&*s) *e++=*s++; *e=0; return d; }
double modf(double x,double*ip) noexcept { double t=__builtin_trunc(x); *ip=t; return x-t; } float modff(float x,float*ip) noexcept { float t=__builtin_truncf(x); *ip=t; return x-t; }
div_t div(int a,int b) noexcept { div_t r; r.quot=a/b; r.rem=a%b; return r; } ldiv_t ldiv(long a,long b) noexcept { ldiv_t r; r.quot=a/b; r.rem=a%b; return r; }
size_t strnlen(const char*s,size_t m) noexcept { size_t n=0; while(n<m&&s[n]) n++; return n; }
char* strdup(const char*s) noexcept { size_t n=strlen(s)+1; char*p=(char*)malloc(n); memcpy(p,s,n); return p; }
// numbers ------------------------------------------------------------------------------
static unsigned long strto(const char*s,char**e,int base,bool sgn){
  const char*p=s; while(*p==' '||(*p>=9&&*p<=13)) p++; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; }
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')){ int c=p[2]; if((unsigned)(c-'0')<10u||(unsigned)((c|32)-'a')<6u){ p+=2; base=16; } }
  if(base==0) base= *p=='0'? 8: 10;
  unsigned long v=0; bool any=false, ov=false;
  for(;;p++){ int c=(unsigned char)*p; int isd=(unsigned)(c-'0')<10u, isa=(unsigned)((c|32)-'a')<26u; if(!(isd|isa)) break; int d= (isd? c-'0': (c|32)-'a'+10)&63; if(d>=base) break; any=true;
    if(symx_umax(v)<(1ul<<56)) v=v*base+d; else { const unsigned long lim=~0ul/(unsigned long)base; if(v>lim) ov=true; else { const unsigned long t=v*(unsigned long)base; if(t>~0ul-(unsigned long)d) ov=true; else v=t+d; } } }
  if(e) *e=(char*)(any? p: s); if(!any) return 0;
  if(sgn){ if(ov||(symx_umax(v)>0x7fffffffffffffffUL&&v>0x7fffffffffffffffUL+(neg?1:0))){ errno=ERANGE; return neg? 0x8000000000000000UL: 0x7fffffffffffffffUL; } } else if(ov){ errno=ERANGE; return ~0ul; }
  return neg? 0-v: v;
}
long strtol(const char*s,char**e,int b) noexcept { return (long)strto(s,e,b,true); } unsigned long strtoul(const char*s,char**e,int b) noexcept { return strto(s,e,b,false); } long long strtoll(const char*s,char**e,int b) noexcept { return (long)strto(s,e,b,true); } unsigned long long strtoull(const char*s,char**e,int b) noexcept { return strto(s,e,b,false); }
long m_strtol(const char*s,char**e,int b) noexcept __asm("strtol"); long m_strtol(const char*s,char**e,int b) noexcept { return (long)strto(s,e,b,true); } unsigned long m_strtoul(const char*s,char**e,int b) noexcept __asm("strtoul"); unsigned long m_strtoul(const char*s,char**e,int b) noexcept { return strto(s,e,b,false); }
int atoi(const char*s) noexcept { return (int)strtol(s,nullptr,10); } long atol(const char*s) noexcept { return strtol(s,nullptr,10); } double atof(const char*s) noexcept { return strtod(s,nullptr); }
// formatted output -------------------------------------------------------------------------
static const unsigned long P10[]={1,10,100,1000,10000,100000,1000000,10000000,100000000,1000000000};
int vsnprintf(char*buf,size_t cap,const char*f,va_list ap) noexcept {
  size_t n=0; auto out=[&](char c){ if(n+1<cap) buf[n]=c; n++; };
  for(;*f;f++){
    if(*f!='%'){ out(*f); continue; } f++; if(*f=='%'){ out('%'); continue; }
    bool zero=false,left=false,plus=false,alt=false,space=false; for(;;f++){ if(*f=='0') zero=true; else if(*f=='-') left=true; else if(*f=='+') plus=true; else if(*f=='#') alt=true; else if(*f==' ') space=true; else break; }
    long width=0; if(*f=='*'){ width=va_arg(ap,int); f++; if(width<0){ left=true; width=-width; } } else while(*f>='0'&&*f<='9') width=width*10+(*f++-'0');
    int prec=-1; if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+(*f++-'0'); }
    int lng=0, hs=0; while(*f=='l'||*f=='z'||*f=='j'||*f=='t'||*f=='h'||*f=='q'){ if(*f=='h') hs++; else lng++; f++; }
    char tmp[80]; int k=0; const char* s=nullptr; long sl=0; bool neg=false;
    switch(*f){
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
        unsigned long v; bool sg=*f=='d'||*f=='i';
        if(sg){ long q= lng? va_arg(ap,long): (long)va_arg(ap,int); if(hs==1) q=(short)q; if(hs>=2) q=(signed char)q; if(symx_umax((unsigned long)q)<=0x7fffffffffffffffUL) v=q; else if(q<0){ neg=true; v=0-(unsigned long)q; } else v=q; }
        else { v= lng? va_arg(ap,unsigned long): (unsigned long)va_arg(ap,unsigned); if(hs==1) v&=0xffff; if(hs>=2) v&=0xff; }
        unsigned base= (*f=='x'||*f=='X')?16: *f=='o'?8:10; bool up=*f=='X';
        if(!neg&&!plus&&!space&&!alt&&zero&&!left&&prec<0&&width>0&&width<10&&symx_is_symbolic(v)){
          if(base==10&&symx_umax(v)<P10[width]){ for(int i=(int)width-1;i>=0;i--) out((char)('0'+(v/P10[i])%10)); continue; }
          if(base==16&&symx_umax(v)<(1ul<<(4*width))){ for(int i=(int)width-1;i>=0;i--){ unsigned d=(v>>(4*i))&15; out((char)(d+'0'+(d>9?(up?7:39):0))); } continue; } }
        unsigned long x=v; do{ unsigned long q=x/base,d=x-q*base; tmp[k++]=(char)(d+'0'+(d>9?(up?7:39):0)); x=q; }while(x!=0); if(prec==0&&v==0) k=0;
        char pre[4]; int np=0; if(neg) pre[np++]='-'; else if(plus&&sg) pre[np++]='+'; else if(space&&sg) pre[np++]=' '; if(alt&&base==16&&v){ pre[np++]='0'; pre[np++]=up?'X':'x'; }
        int zeros= prec>k? prec-k: 0; if(zero&&!left&&prec<0&&width>k+np) zeros=(int)width-k-np; long pad=width-(k+np+zeros);
        if(!left) while(pad-->0) out(' '); for(int i=0;i<np;i++) out(pre[i]); while(zeros-->0) out('0'); while(k) out(tmp[--k]); if(left) while(pad-->0) out(' ');
        continue; }
      case 'c': tmp[0]=(char)va_arg(ap,int); s=tmp; sl=1; break;
      case 's': s=va_arg(ap,const char*); if(!s) s="(null)"; sl= prec>=0? (long)strnlen(s,prec): (long)strlen(s); break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { static char fb[512]; double d=va_arg(ap,double); sl=symx_fmt_double(fb,512,d,prec<0?6:prec,*f=='f'||*f=='F'?1:*f=='e'||*f=='E'?2:0); s=fb; if(zero&&!left&&width>sl){ long z=width-sl; long i=0; if(s[0]=='-'){ out('-'); i=1; } while(z-->0) out('0'); for(;i<sl;i++) out(s[i]); continue; } if(plus&&d>=0){ out('+'); if(width) width--; } break; }
      case 'p': { unsigned long v=(unsigned long)va_arg(ap,void*); out('0'); out('x'); do{ tmp[k++]="0123456789abcdef"[v&15]; v>>=4; }while(v); while(k) out(tmp[--k]); continue; }
      default: out('%'); out(*f); continue;
    }
    long pad=width-sl; if(!left) while(pad-->0) out(' '); for(long i=0;i<sl;i++) out(s[i]); if(left) while(pad-->0) out(' ');
  }
  if(cap) buf[n<cap? n: cap-1]=0; return (int)n;
}
int vsscanf(const char*s,const char*f,va_list ap) noexcept {
  const char*s0=s; int got=0;
  for(;*f;f++){
    if(*f==' '||(*f>=9&&*f<=13)){ while(*s==' '||(*s>=9&&*s<=13)) s++; continue; }
    if(*f!='%'){ if(*s!=*f) return got||*s? got: -1; s++; continue; }
    f++; if(*f=='%'){ if(*s!='%') return got; s++; continue; }
    bool skip=false; if(*f=='*'){ skip=true; f++; } int w=0; while(*f>='0'&&*f<='9') w=w*10+(*f++-'0'); int sz=4; while(*f=='h'||*f=='l'||*f=='z'||*f=='j'){ if(*f=='h') sz= sz==2?1:2; else sz=8; f++; }
    if(*f=='n'){ if(sz==8) *va_arg(ap,long*)=s-s0; else *va_arg(ap,int*)=(int)(s-s0); continue; }
    if(*f=='c'){ if(!w) w=1; char*d= skip? nullptr: va_arg(ap,char*); for(;w;w--){ if(!*s) return got? got: -1; if(d) *d++=*s; s++; } if(d) got++; continue; }
    while(*s==' '||(*s>=9&&*s<=13)) s++;
    if(!*s) return got? got: -1;
    if(*f=='s'){ char*d= skip? nullptr: va_arg(ap,char*); if(!w) w=1<<30; for(;w&&*s&&!(*s==' '||(*s>=9&&*s<=13));w--){ if(d) *d++=*s; s++; } if(d){ *d=0; got++; } continue; }
    int base= *f=='x'||*f=='X'? 16: *f=='o'? 8: *f=='i'? 0: 10; if(*f=='f'||*f=='g'||*f=='e'){ char*e; double v=strtod(s,&e); if(e==s) return got; s=e; if(!skip){ if(sz==8) *va_arg(ap,double*)=v; else *va_arg(ap,float*)=(float)v; got++; } continue; }
    if(!w) w=1<<30; bool neg=false,any=false; if(*s=='-'||*s=='+'){ neg=*s=='-'; s++; w--; } if(base==0){ base=10; if(*s=='0'){ base=8; if(s[1]=='x'||s[1]=='X') base=16; } } if(base==16&&*s=='0'&&(s[1]=='x'||s[1]=='X')&&w>2){ s+=2; w-=2; }
    unsigned long v=0; for(;w;w--,s++){ char c=*s; int d; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='f') d=c-'a'+10; else if(c>='A'&&c<='F') d=c-'A'+10; else break; if(d>=base) break; v=v*(unsigned)base+(unsigned)d; any=true; }
    if(!any) return got; if(neg) v=0-v;
    if(!skip){ if(sz==8) *va_arg(ap,unsigned long*)=v; else if(sz==4) *va_arg(ap,unsigned*)=(unsigned)v; else if(sz==2) *va_arg(ap,unsigned short*)=(unsigned short)v; else *va_arg(ap,unsigned char*)=(unsigned char)v; got++; }
  }
  return got;
}
int sscanf(const char*s,const char*f,...) noexcept { va_list ap; va_start(ap,f); int r=vsscanf(s,f,ap); va_end(ap); return r; }
int __isoc99_sscanf(const char*s,const char*f,...) noexcept { va_list ap; va_start(ap,f); int r=vsscanf(s,f,ap); va_end(ap); return r; }
int snprintf(char*b,size_t c,const char*f,...) noexcept { va_list ap; va_start(ap,f); int r=vsnprintf(b,c,f,ap); va_end(ap); return r; }
int sprintf(char*b,const char*f,...) noexcept { va_list ap; va_start(ap,f); int r=vsnprintf(b,1u<<20,f,ap); va_end(ap); return r; }
int printf(const char*f,...) { char b[4096]; va_list ap; va_start(ap,f); int r=vsnprintf(b,4096,f,ap); va_end(ap); symx_out_write(1,b,strlen(b)); return r; }
int fprintf(FILE*o,const char*f,...) { char b[4096]; va_list ap; va_start(ap,f); int r=vsnprintf(b,4096,f,ap); va_end(ap); symx_out_write(o==stderr?2:1,b,strlen(b)); return r; }
// time ----------------------------------------------------------------------------------------
// The host's time zone is UTC+tz_std, with one hour of summer time between
// tz_dst_from and tz_dst_to (days of the year, month*100+day); default UTC.
static long tz_std=0; static int tz_dst=0;
void symx_set_tz(long off,int dst){ tz_std=off; tz_dst=dst; }
static long dfc(long y,long m,long d){ // m 1..12
  y-= m<=2; long era=(y+4000)/400-10; unsigned long yoe=(unsigned long)(y-era*400); unsigned long mp=(unsigned long)(m+9)%12; unsigned long doy=(153*mp+2)/5+d-1; unsigned long doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+(long)doe-719468; }
static void cfd(long z,struct tm*t){ unsigned long u=(unsigned long)(z+719468+146097L*10); unsigned long era=u/146097; unsigned long doe=u-era*146097; unsigned long yoe=(doe-doe/1460+doe/36524-doe/146096)/365; unsigned long y=yoe+era*400; unsigned long doy=doe-(365*yoe+yoe/4-yoe/100); unsigned long mp=(5*doy+2)/153; unsigned long d=doy-(153*mp+2)/5+1; unsigned long m= mp<10? mp+3: mp-9; t->tm_year=(int)(y+(m<=2)-4000)-1900; t->tm_mon=(int)m-1; t->tm_mday=(int)d; t->tm_wday=(int)((u-146097UL*10+ (719468UL*0) + 146097UL*10 + 3UL+ 0UL)%7); long w=(z+4)%7; t->tm_wday=(int)(w<0? w+7: w); t->tm_yday=(int)(z-dfc(t->tm_year+1900L,1,1)); }
static struct { long t; struct tm tm; int valid; } memo_;
static void brk(long t,struct tm*o){ long day,sec;
  if(memo_.valid&&symx_is_symbolic((unsigned long)t)&&symx_same((unsigned long)t,(unsigned long)memo_.t)){ *o=memo_.tm; return; }
  day=t/86400; sec=t%86400; if(sec<0){ sec+=86400; day--; } cfd(day,o); unsigned long s=(unsigned long)sec; o->tm_hour=(int)(s/3600); o->tm_min=(int)(s%3600/60); o->tm_sec=(int)(s%60); o->tm_isdst=0; }
static long norm(struct tm*tm){ long mon=tm->tm_mon,year=tm->tm_year+1900L; if(symx_umax((unsigned long)(unsigned)tm->tm_mon)>11){ while(mon<0){ mon+=12; year--; } while(mon>11){ mon-=12; year++; } }
  long day=dfc(year,mon+1,1)+tm->tm_mday-1; long sec=tm->tm_hour*3600L+tm->tm_min*60L+tm->tm_sec; if(!symx_is_symbolic((unsigned long)sec)){ long q=sec/86400; sec-=q*86400; day+=q; }
  while(sec<0){ sec+=86400; day--; } while(sec>=86400){ sec-=86400; day++; }
  struct tm r; memset(&r,0,sizeof r); cfd(day,&r); unsigned long s=(unsigned long)sec; r.tm_hour=(int)(s/3600); r.tm_min=(int)(s%3600/60); r.tm_sec=(int)(s%60); memo_.tm=r; memo_.valid=1; *tm=r; return memo_.t=day*86400+sec; }
// summer time (when modelled): last Sunday of March 01:00 UTC .. last Sunday of October 01:00 UTC, approximated by fixed dates Mar 29 / Oct 27
static int in_dst_utc(long t){ struct tm x; brk(t,&x); int k=(x.tm_mon+1)*10000+x.tm_mday*100+x.tm_hour; return k>=32901&&k<102701; }
struct tm* gmtime_r(const time_t*t,struct tm*o) noexcept { brk(*t,o); return o; }
struct tm* localtime_r(const time_t*t,struct tm*o) noexcept { if(!tz_std&&!tz_dst){ brk(*t,o); return o; } int d=tz_dst&&in_dst_utc(*t); brk(*t+tz_std+(d?3600:0),o); o->tm_isdst=d; return o; }
static struct tm st_tm;
struct tm* gmtime(const time_t*t) noexcept { return gmtime_r(t,&st_tm); } struct tm* localtime(const time_t*t) noexcept { return localtime_r(t,&st_tm); }
time_t timegm(struct tm*t) noexcept { return norm(t); }
time_t mktime(struct tm*t) noexcept { if(!tz_std&&!tz_dst) return norm(t); struct tm q=*t; long l=norm(&q); long u=l-tz_std; if(tz_dst&&in_dst_utc(u-3600)) u-=3600; time_t v=u; localtime_r(&v,t); memo_.valid=0; return u; }
time_t time(time_t*t) noexcept { long s=symx_now_ns()/1000000000L; if(t) *t=s; return s; }
int gettimeofday(struct timeval*tv,void*) noexcept { long n=symx_now_ns(); tv->tv_sec=n/1000000000L; tv->tv_usec=n%1000000000L/1000; return 0; }
int clock_gettime(clockid_t,struct timespec*tv) noexcept { long n=symx_now_ns(); tv->tv_sec=n/1000000000L; tv->tv_nsec=n%1000000000L; return 0; }
void tzset() noexcept {}
double difftime(time_t a,time_t b) noexcept { return (double)(a-b); }
static const char* const WD[]={"Sunday","Monday","Tuesday","Wednesday","Thursday","Friday","Saturday"}; static const char* const MN[]={"January","February","March","April","May","June","July","August","September","October","November","December"};
size_t strftime(char*b,size_t cap,const char*f,const struct tm*t) noexcept {
  size_t n=0; bool over=false; auto out=[&](char c){ if(n<cap) b[n]=c; else over=true; n++; }; auto num=[&](long v,int w){ char x[24]; snprintf(x,24,w==2?"%02d":w==3?"%03d":w==4?"%04d":"%d",(int)v); for(char*p=x;*p;p++) out(*p); }; auto str=[&](const char*s,size_t m){ for(size_t i=0;i<m&&s[i];i++) out(s[i]); };
  for(;*f;f++){ if(*f!='%'){ out(*f); continue; } f++; if(*f=='E'||*f=='O'||*f=='-'||*f=='_') f++;
    switch(*f){ case 0: f--; out('%'); break; case '%': out('%'); break; case 'Y': num(t->tm_year+1900,1); break; case 'y': num((t->tm_year%100+100)%100,2); break; case 'C': num((t->tm_year+1900)/100,2); break; case 'm': num(t->tm_mon+1,2); break; case 'd': num(t->tm_mday,2); break; case 'e': { char x[8]; snprintf(x,8,"%2d",t->tm_mday); str(x,8); break; } case 'H': num(t->tm_hour,2); break; case 'I': num((t->tm_hour+11)%12+1,2); break; case 'M': num(t->tm_min,2); break; case 'S': num(t->tm_sec,2); break; case 'j': num(t->tm_yday+1,3); break; case 'p': str(t->tm_hour<12?"AM":"PM",2); break; case 'a': str(WD[t->tm_wday],3); break; case 'A': str(WD[t->tm_wday],20); break; case 'b': case 'h': str(MN[t->tm_mon],3); break; case 'B': str(MN[t->tm_mon],20); break; case 'F': num(t->tm_year+1900,1); out('-'); num(t->tm_mon+1,2); out('-'); num(t->tm_mday,2); break; case 'T': num(t->tm_hour,2); out(':'); num(t->tm_min,2); out(':'); num(t->tm_sec,2); break; case 'R': num(t->tm_hour,2); out(':'); num(t->tm_min,2); break; case 'D': num(t->tm_mon+1,2); out('/'); num(t->tm_mday,2); out('/'); num(t->tm_year%100,2); break; case 'z': str("+0000",5); break; case 'Z': str("UTC",3); break; case 'n': out('\n'); break; case 't': out('\t'); break; case 'u': num(t->tm_wday?t->tm_wday:7,1); break; case 'w': num(t->tm_wday,1); break; case 's': { struct tm q=*t; char x[24]; snprintf(x,24,"%ld",(long)norm(&q)); str(x,24); break; } case 'c': str(WD[t->tm_wday],3); out(' '); str(MN[t->tm_mon],3); { char x[32]; snprintf(x,32," %2d %02d:%02d:%02d %d",t->tm_mday,t->tm_hour,t->tm_min,t->tm_sec,t->tm_year+1900); str(x,32); } break; default: out('%'); out(*f); } }
  if(over||n>=cap) return 0; b[n]=0; return n; }
// getopt ---------------------------------------------------------------------------------------
char* optarg; int optind=1, opterr=1, optopt; static int optpos_=0;
void symx_getopt_reset(){ optind=1; optpos_=0; optarg=nullptr; }
int getopt_long(int argc,char*const*argv,const char*so,const struct option*lo,int*li) noexcept {
  char** av=const_cast<char**>(argv); optarg=nullptr;
  if(optpos_==0){
    // permute: first option element at or after optind
    int i=optind; while(i<argc&&!(av[i][0]=='-'&&av[i][1]!=0)) i++;
    if(i>=argc) { return -1; }
    if(i!=optind){ char*t=av[i]; bool isdd=t[1]=='-'&&t[2]==0; // does it take a separate argument?
      int take=1; if(!isdd){ if(t[1]=='-'){ const char*nm=t+2; size_t k=0; while(nm[k]&&nm[k]!='=') k++; if(!nm[k]) for(const option*o=lo;o->name;o++) if(!strncmp(o->name,nm,k)&&(strlen(o->name)==k)&&o->has_arg==required_argument&&i+1<argc) take=2; } else { for(const char*q=t+1;*q;q++){ const char*c=strchr(so,*q); if(c&&c[1]==':'){ if(!q[1]&&i+1<argc) take=2; break; } } } }
      for(int r=0;r<take;r++){ char*x=av[i+r]; for(int j=i+r;j>optind+r;j--) av[j]=av[j-1]; av[optind+r]=x; } }
    char*a=av[optind];
    if(a[1]=='-'&&a[2]==0){ optind++; return -1; }
    if(a[1]=='-'){ const char*nm=a+2; size_t k=0; while(nm[k]&&nm[k]!='=') k++; const option*m=nullptr; int cnt=0,ix=0; for(const option*o=lo;o->name;o++) if(!strncmp(o->name,nm,k)){ if(strlen(o->name)==k){ m=o; cnt=1; ix=(int)(o-lo); break; } m=o; ix=(int)(o-lo); cnt++; }
      optind++; if(cnt!=1){ optopt=0; return '?'; }
      if(m->has_arg!=no_argument){ if(nm[k]=='=') optarg=(char*)nm+k+1; else if(m->has_arg==required_argument){ if(optind>=argc){ optopt=m->val; return so[0]==':'?':':'?'; } optarg=av[optind++]; } } else if(nm[k]=='='){ return '?'; }
      if(li) *li=ix; if(m->flag){ *m->flag=m->val; return 0; } return m->val; }
    optpos_=1;
  }
  char*a=av[optind]; char c=a[optpos_++]; const char*p=(c==':')?nullptr:strchr(so,c); bool last=a[optpos_]==0;
  if(!p){ optopt=c; if(last){ optind++; optpos_=0; } return '?'; }
  if(p[1]==':'){ if(!last){ optarg=a+optpos_; optind++; optpos_=0; } else { optind++; optpos_=0; if(p[2]!=':'){ if(optind>=argc){ optopt=c; return so[0]==':'?':':'?'; } optarg=av[optind++]; } } }
  else if(last){ optind++; optpos_=0; }
  return (unsigned char)c;
}
// iconv to UTF-8 from UCS-2 (native order, as in glibc on little-endian machines; and explicit BE/LE), UTF-8, ISO-8859-1 and ISO-8859-15 -----
static int ic_be[16]; static int n_ic=0;
static bool ic_is(const char*a,const char*b){ for(;*a&&*b;a++,b++){ char x=*a; if(x>='a'&&x<='z') x=(char)(x-32); if(x!=*b) return false; } return !*a&&!*b; }
iconv_t iconv_open(const char*to,const char*from){ (void)to; int be=-1; if(ic_is(from,"UCS-2")||ic_is(from,"UCS-2LE")||ic_is(from,"UTF-16LE")||ic_is(from,"ISO-10646-UCS-2")||ic_is(from,"UNICODELITTLE")) be=0; else if(ic_is(from,"UCS-2BE")||ic_is(from,"UTF-16BE")||ic_is(from,"UNICODEBIG")) be=1; else if(ic_is(from,"UTF-8")||ic_is(from,"UTF8")||!*from) be=2; else if(ic_is(from,"ISO-8859-1")||ic_is(from,"ISO8859-1")||ic_is(from,"LATIN1")) be=3; else if(ic_is(from,"ISO-8859-15")||ic_is(from,"ISO8859-15")) be=4; if(be<0||n_ic>=16){ errno=EINVAL; return (iconv_t)-1; } ic_be[n_ic]=be; return (iconv_t)(long)(++n_ic); }
int iconv_close(iconv_t c){ if((long)c==n_ic) n_ic--; return 0; }
size_t iconv(iconv_t cd,char**in,size_t*inl,char**out,size_t*outl){
  if(!in||!*in) return 0; int be=ic_be[(long)cd-1];
  while(*inl>0){ unsigned a=(unsigned char)(*in)[0], u, used=1;
    if(be<2){ if(*inl<2){ errno=EINVAL; return (size_t)-1; } unsigned b=(unsigned char)(*in)[1]; u= be? a<<8|b: b<<8|a; used=2; }
    else if(be==2){ u=a; if(a>=0x80){ unsigned n= a>=0xC2&&a<0xE0? 2: a>=0xE0&&a<0xF0? 3: a>=0xF0&&a<0xF5? 4: 0; if(!n){ errno=EILSEQ; return (size_t)-1; } u=a&(0x7Fu>>n); for(unsigned k=1;k<n;k++){ if(k>=*inl){ errno=EINVAL; return (size_t)-1; } unsigned c=(unsigned char)(*in)[k]; if((c&0xC0)!=0x80){ errno=EILSEQ; return (size_t)-1; } u=u<<6|(c&63); } if((n==3&&u<0x800)||(n==4&&(u<0x10000||u>0x10FFFF))){ errno=EILSEQ; return (size_t)-1; } used=n; } }
    else { u=a; if(be==4) switch(a){ case 0xA4:u=0x20AC;break; case 0xA6:u=0x160;break; case 0xA8:u=0x161;break; case 0xB4:u=0x17D;break; case 0xB8:u=0x17E;break; case 0xBC:u=0x152;break; case 0xBD:u=0x153;break; case 0xBE:u=0x178;break; } }
    if(u>=0xD800&&u<0xE000){ errno=EILSEQ; return (size_t)-1; }
    unsigned n= u<0x80? 1: u<0x800? 2: u<0x10000? 3: 4; if(*outl<n){ errno=E2BIG; return (size_t)-1; } char*o=*out; if(n==1) o[0]=(char)u; else if(n==2){ o[0]=(char)(0xC0|u>>6); o[1]=(char)(0x80|(u&63)); } else if(n==3){ o[0]=(char)(0xE0|u>>12); o[1]=(char)(0x80|(u>>6&63)); o[2]=(char)(0x80|(u&63)); } else { o[0]=(char)(0xF0|u>>18); o[1]=(char)(0x80|(u>>12&63)); o[2]=(char)(0x80|(u>>6&63)); o[3]=(char)(0x80|(u&63)); }
    *out+=n; *outl-=n; *in+=used; *inl-=used; }
  return 0; }
// directories: none
void* opendir(const char*) { errno=ENOENT; return nullptr; }
}
