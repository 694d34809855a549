// Minimal, self-contained replacement of the libstdc++ stream headers used when
// compiling /repo's sources for symbolic execution. Same class structure as the
// standard (so user code compiles unchanged); formatting of integers is written
// so that values with a known bound do not fork.
#ifndef SYMX_STREAMS_H
#define SYMX_STREAMS_H
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <cstring>
#include <cstdint>
#include <utility>
#include <new>
#include <limits>
#include <type_traits>
#include <ctime>
#include <cstdlib>

extern "C" {
unsigned long symx_umax(unsigned long v);          // sound upper bound of v (v itself when concrete)
int  symx_fmt_double(char* buf, int cap, double v, int prec, int mode);  // mode 0 %g 1 %f 2 %e; concrete only
int  symx_stdin_getc(void);                        // -1 at EOF
void symx_out_write(int fd, const char* p, unsigned long n);
void* symx_file_open(const char* name, unsigned long* size);  // in-memory file or null
int  getchar(void);
}

namespace std {
class locale { public: locale() noexcept {} explicit locale(const char*) {} static const locale& classic(){ static locale l; return l; } static locale global(const locale&){ return locale(); } string name() const { return "C"; } bool operator==(const locale&) const {return true;} };
template<class F> struct symx_facet_{};
template<class C> inline bool isspace(C c, const locale&){ return c==' '||(c>=9&&c<=13); }
template<class C> inline bool isdigit(C c, const locale&){ return c>='0'&&c<='9'; }
template<class C> inline C tolower(C c, const locale&){ return (c>='A'&&c<='Z')? C(c+32):c; }
template<class C> inline C toupper(C c, const locale&){ return (c>='a'&&c<='z')? C(c-32):c; }

class ios_base {
 public:
  typedef unsigned fmtflags;
  static const fmtflags boolalpha=1, dec=2, fixed=4, hex=8, internal=16, left=32, oct=64, right=128, scientific=256, showbase=512, showpoint=1024, showpos=2048, skipws=4096, unitbuf=8192, uppercase=16384, adjustfield=left|right|internal, basefield=dec|oct|hex, floatfield=scientific|fixed;
  typedef unsigned iostate;
  static const iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
  typedef unsigned openmode;
  static const openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
  typedef int seekdir;
  static const seekdir beg=0, cur=1, end=2;
  class failure : public system_error { public: explicit failure(const string& s):system_error(error_code(),s){} explicit failure(const char* s):system_error(error_code(),s){} };
  class Init { public: Init(){} ~Init(){} };
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f){ fmtflags o=fl_; fl_=f; return o; }
  fmtflags setf(fmtflags f){ fmtflags o=fl_; fl_|=f; return o; }
  fmtflags setf(fmtflags f, fmtflags m){ fmtflags o=fl_; fl_=(fl_&~m)|(f&m); return o; }
  void unsetf(fmtflags m){ fl_&=~m; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p){ streamsize o=prec_; prec_=p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize w){ streamsize o=width_; width_=w; return o; }
  locale imbue(const locale&){ return locale(); }
  locale getloc() const { return locale(); }
  static bool sync_with_stdio(bool=true){ return true; }
  virtual ~ios_base(){}
 protected:
  ios_base(): fl_(skipws|dec), prec_(6), width_(0), st_(0), exc_(0) {}
  fmtflags fl_; streamsize prec_; streamsize width_; iostate st_; iostate exc_;
};

template<class C, class T> class basic_streambuf {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  virtual ~basic_streambuf(){}
  int_type sgetc(){ return underflow(); }
  int_type sbumpc(){ return uflow(); }
  int_type snextc(){ return sbumpc()==T::eof()? T::eof(): sgetc(); }
  streamsize sgetn(C* s, streamsize n){ return xsgetn(s,n); }
  int_type sputc(C c){ C t=c; return xsputn(&t,1)==1? T::to_int_type(c): T::eof(); }
  streamsize sputn(const C* s, streamsize n){ return xsputn(s,n); }
  int pubsync(){ return sync(); }
  streamsize in_avail(){ return 0; }
  locale pubimbue(const locale& l){ return l; }
  locale getloc() const { return locale(); }
  virtual int_type underflow(){ return T::eof(); }
  virtual int_type uflow(){ return T::eof(); }
  virtual int_type overflow(int_type = T::eof()){ return T::eof(); }
  virtual streamsize xsgetn(C* s, streamsize n){ streamsize i=0; for(;i<n;i++){ int_type c=uflow(); if(c==T::eof()) break; s[i]=T::to_char_type(c);} return i; }
  virtual streamsize xsputn(const C* s, streamsize n){ for(streamsize i=0;i<n;i++) if(overflow(T::to_int_type(s[i]))==T::eof()) return i; return n; }
  virtual int sync(){ return 0; }
  virtual void symx_seekg(long p, int whence){ (void)p;(void)whence; }
  virtual long symx_tellg(){ return -1; }
  virtual long symx_tellp(){ return -1; }
  virtual void unget_(){}
};

template<class C, class T> class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ios(basic_streambuf<C,T>* b): sb_(b), tie_(nullptr), fill_(' ') { st_ = b? goodbit: badbit; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s=goodbit){ st_ = s; if (st_ & exc_) throw ios_base::failure("basic_ios::clear"); }
  void setstate(iostate s){ clear(st_|s); }
  void _M_setstate(iostate s){ st_|=s; }
  bool good() const { return st_==0; }
  bool eof() const { return (st_&eofbit)!=0; }
  bool fail() const { return (st_&(badbit|failbit))!=0; }
  bool bad() const { return (st_&badbit)!=0; }
  iostate exceptions() const { return exc_; }
  void exceptions(iostate e){ exc_=e; clear(st_); }
  basic_ostream<C,T>* tie() const { return tie_; }
  basic_ostream<C,T>* tie(basic_ostream<C,T>* t){ auto* o=tie_; tie_=t; return o; }
  basic_streambuf<C,T>* rdbuf() const { return sb_; }
  basic_streambuf<C,T>* rdbuf(basic_streambuf<C,T>* b){ auto* o=sb_; sb_=b; clear(); return o; }
  basic_ios& copyfmt(const basic_ios& o){ fl_=o.fl_; prec_=o.prec_; width_=o.width_; fill_=o.fill_; tie_=o.tie_; exc_=o.exc_; return *this; }
  C fill() const { return fill_; }
  C fill(C c){ C o=fill_; fill_=c; return o; }
  locale imbue(const locale& l){ return l; }
  C widen(char c) const { return c; }
  char narrow(C c, char) const { return c; }
 protected:
  basic_ios(): sb_(nullptr), tie_(nullptr), fill_(' ') {}
  void init(basic_streambuf<C,T>* b){ sb_=b; st_ = b? goodbit: badbit; }
  basic_streambuf<C,T>* sb_; basic_ostream<C,T>* tie_; C fill_;
 private:
  basic_ios(const basic_ios&)=delete; basic_ios& operator=(const basic_ios&)=delete;
};

inline ios_base& boolalpha(ios_base& b){ b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b){ b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showbase(ios_base& b){ b.setf(ios_base::showbase); return b; }
inline ios_base& noshowbase(ios_base& b){ b.unsetf(ios_base::showbase); return b; }
inline ios_base& showpoint(ios_base& b){ b.setf(ios_base::showpoint); return b; }
inline ios_base& showpos(ios_base& b){ b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b){ b.unsetf(ios_base::showpos); return b; }
inline ios_base& skipws(ios_base& b){ b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b){ b.unsetf(ios_base::skipws); return b; }
inline ios_base& uppercase(ios_base& b){ b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b){ b.unsetf(ios_base::uppercase); return b; }
inline ios_base& unitbuf(ios_base& b){ b.setf(ios_base::unitbuf); return b; }
inline ios_base& internal(ios_base& b){ b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& left(ios_base& b){ b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b){ b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& dec(ios_base& b){ b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b){ b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b){ b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b){ b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b){ b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b){ b.unsetf(ios_base::floatfield); return b; }

template<class C, class T> class basic_ostream : virtual public basic_ios<C,T> {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ostream(basic_streambuf<C,T>* b){ this->init(b); }
  virtual ~basic_ostream(){}
  class sentry { public: explicit sentry(basic_ostream& o): ok_(o.good()){} ~sentry(){} explicit operator bool() const { return ok_; } private: bool ok_; };
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)){ return f(*this); }
  basic_ostream& operator<<(basic_ios<C,T>& (*f)(basic_ios<C,T>&)){ f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)){ f(*this); return *this; }
  basic_ostream& operator<<(bool v){ if (this->fl_ & ios_base::boolalpha){ pad_(v?"true":"false", v?4:5); return *this; } return putu_((unsigned long)v, false, 1); }
  basic_ostream& operator<<(short v){ return puts_(v, sizeof v); }
  basic_ostream& operator<<(unsigned short v){ return putu_(v,false, sizeof v); }
  basic_ostream& operator<<(int v){ return puts_(v, sizeof v); }
  basic_ostream& operator<<(unsigned v){ return putu_(v,false, sizeof v); }
  basic_ostream& operator<<(long v){ return puts_(v, sizeof v); }
  basic_ostream& operator<<(unsigned long v){ return putu_(v,false, sizeof v); }
  basic_ostream& operator<<(long long v){ return puts_(v, sizeof v); }
  basic_ostream& operator<<(unsigned long long v){ return putu_(v,false, sizeof v); }
  basic_ostream& operator<<(double v){ char b[400]; int m = (this->fl_&ios_base::floatfield)==ios_base::fixed?1:(this->fl_&ios_base::floatfield)==ios_base::scientific?2:0; int n=symx_fmt_double(b,400,v,(int)this->prec_,m); pad_(b,n); return *this; }
  basic_ostream& operator<<(float v){ return *this << (double)v; }
  basic_ostream& operator<<(long double v){ return *this << (double)v; }
  basic_ostream& operator<<(const void* p){ auto f=this->fl_; this->setf(ios_base::hex,ios_base::basefield); this->setf(ios_base::showbase); putu_((unsigned long)p,false,8); this->fl_=f; return *this; }
  basic_ostream& operator<<(basic_streambuf<C,T>* b){ for(;;){ auto c=b->sbumpc(); if (c==T::eof()) break; put(T::to_char_type(c)); } return *this; }
  basic_ostream& put(C c){ return write(&c,1); }
  basic_ostream& write(const C* s, streamsize n){ if (this->good()) { if (this->sb_->sputn(s,n)!=n) this->setstate(ios_base::badbit); } return *this; }
  basic_ostream& flush(){ if (this->sb_) this->sb_->pubsync(); return *this; }
  long tellp(){ return this->sb_->symx_tellp(); }
  void pad_(const C* s, long n){
    long w=this->width_; this->width_=0;
    if (w<=n){ write(s,n); return; }
    basic_string<C,T> p((size_t)(w-n), this->fill_);
    auto a=this->fl_&ios_base::adjustfield;
    if (a==ios_base::left){ write(s,n); write(p.data(),w-n); }
    else { write(p.data(),w-n); write(s,n); }
  }
 private:
  static C hexd_(unsigned long d, bool up){ return (C)(d + '0' + (d>9 ? (up?7:39):0)); }
  basic_ostream& puts_(long v, int bytes){
    auto bf=this->fl_&ios_base::basefield;
    if (bf==ios_base::hex || bf==ios_base::oct){ unsigned long u=(unsigned long)v; if (bytes<8) u &= (1ul<<(8*bytes))-1; return putu_(u,false,bytes); }
    if (symx_umax((unsigned long)v) <= 0x7fffffffffffffffUL) return putu_((unsigned long)v,false,bytes);
    if (v<0) return putu_(0ul-(unsigned long)v, true, bytes);
    return putu_((unsigned long)v,false,bytes);
  }
  basic_ostream& putu_(unsigned long v, bool neg, int bytes){
    (void)bytes;
    auto bf=this->fl_&ios_base::basefield; bool up=(this->fl_&ios_base::uppercase)!=0;
    C buf[72]; int n=0;
    long w=this->width_;
    auto adj=this->fl_&ios_base::adjustfield;
    bool plain = !neg && !(this->fl_&(ios_base::showbase|ios_base::showpos)) && adj!=ios_base::left && this->fill_=='0';
    if (plain && bf==ios_base::hex && w>=1 && w<16 && symx_umax(v) < (1ul<<(4*w))){
      for (int i=0;i<w;i++) buf[n++]=hexd_((v>>(4*(w-1-i)))&15, up);
      this->width_=0; write(buf,n); return *this;
    }
    if (plain && bf!=ios_base::hex && bf!=ios_base::oct && w==2 && symx_umax(v)<100){
      buf[0]=(C)('0'+v/10); buf[1]=(C)('0'+v%10); this->width_=0; write(buf,2); return *this;
    }
    unsigned base = bf==ios_base::hex?16: bf==ios_base::oct?8:10;
    C tmp[72]; int k=0; unsigned long x=v;
    do { unsigned long q=x/base; unsigned long d=x-q*base; tmp[k++]= base==16? hexd_(d,up): (C)('0'+d); x=q; } while (x!=0);
    int sign=0;
    if (neg) { buf[n++]='-'; sign=1; } else if ((this->fl_&ios_base::showpos)&&base==10){ buf[n++]='+'; sign=1; }
    if (this->fl_&ios_base::showbase){ if (base==16&&v){ buf[n++]='0'; buf[n++]=up?'X':'x'; sign+=2; } else if(base==8&&v){ buf[n++]='0'; } }
    if (adj==ios_base::internal && w>n+k){ for(int i=n+k;i<w;i++) buf[n++]=this->fill_; }
    (void)sign;
    while(k) buf[n++]=tmp[--k];
    pad_(buf,n); return *this;
  }
};
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const char* s){ o.pad_(s,(long)strlen(s)); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const unsigned char* s){ o.pad_((const char*)s,(long)strlen((const char*)s)); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, char c){ o.pad_(&c,1); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, unsigned char c){ char d=(char)c; o.pad_(&d,1); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, signed char c){ char d=(char)c; o.pad_(&d,1); return o; }
template<class C,class T> inline basic_ostream<C,T>& endl(basic_ostream<C,T>& o){ o.put('\n'); return o.flush(); }
template<class C,class T> inline basic_ostream<C,T>& ends(basic_ostream<C,T>& o){ return o.put('\0'); }
template<class C,class T> inline basic_ostream<C,T>& flush(basic_ostream<C,T>& o){ return o.flush(); }
template<class O, class V> inline auto operator<<(O&& o, const V& v) -> typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, typename remove_reference<O>::type>::value, O&&>::type { o << v; return static_cast<O&&>(o); }

template<class C, class T> class basic_istream : virtual public basic_ios<C,T> {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_istream(basic_streambuf<C,T>* b): gc_(0) { this->init(b); }
  virtual ~basic_istream(){}
  class sentry { public: explicit sentry(basic_istream& i, bool noskip=false): ok_(i.prep_(noskip)){} explicit operator bool() const { return ok_; } private: bool ok_; };
  bool prep_(bool noskip){
    if (!this->good()){ this->setstate(ios_base::failbit); return false; }
    if (!noskip && (this->fl_&ios_base::skipws)){
      for(;;){ auto c=this->sb_->sgetc(); if (c==T::eof()){ this->setstate(ios_base::eofbit|ios_base::failbit); return false; } if (!(c==' '||(c>=9&&c<=13))) break; this->sb_->sbumpc(); }
    }
    return true;
  }
  streamsize gcount() const { return gc_; }
  int_type get(){ gc_=0; if (!prep_(true)) return T::eof(); auto c=this->sb_->sbumpc(); if (c==T::eof()) this->setstate(ios_base::eofbit|ios_base::failbit); else gc_=1; return c; }
  basic_istream& get(C& c){ auto v=get(); if (v!=T::eof()) c=T::to_char_type(v); return *this; }
  int_type peek(){ gc_=0; if (!prep_(true)) return T::eof(); auto c=this->sb_->sgetc(); if (c==T::eof()) this->setstate(ios_base::eofbit); return c; }
  basic_istream& unget(){ this->clear(this->st_ & ~ios_base::eofbit); this->sb_->unget_(); return *this; }
  basic_istream& read(C* s, streamsize n){ gc_=0; if (!prep_(true)) return *this; gc_=this->sb_->sgetn(s,n); if (gc_!=n) this->setstate(ios_base::eofbit|ios_base::failbit); return *this; }
  basic_istream& ignore(streamsize n=1, int_type d=T::eof()){ gc_=0; if(!prep_(true)) return *this; while(gc_<n){ auto c=this->sb_->sbumpc(); if (c==T::eof()){ this->setstate(ios_base::eofbit); break; } gc_++; if (c==d) break; } return *this; }
  basic_istream& getline(C* s, streamsize n, C d='\n'){ gc_=0; if(!prep_(true)){ if(n>0) *s=0; return *this; } streamsize i=0; for(;;){ auto c=this->sb_->sbumpc(); if(c==T::eof()){ this->setstate(i==0?(ios_base::eofbit|ios_base::failbit):ios_base::eofbit); break;} gc_++; if(T::to_char_type(c)==d) break; if(i+1>=n){ this->setstate(ios_base::failbit); break;} s[i++]=T::to_char_type(c);} s[i]=0; return *this; }
  basic_istream& seekg(long p){ this->clear(this->st_ & ~ios_base::eofbit); this->sb_->symx_seekg(p,0); return *this; }
  basic_istream& seekg(long p, ios_base::seekdir d){ this->clear(this->st_ & ~ios_base::eofbit); this->sb_->symx_seekg(p,d); return *this; }
  long tellg(){ return this->sb_->symx_tellg(); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)){ return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)){ f(*this); return *this; }
  template<class V> basic_istream& symx_int_(V& v){ long x; if (!rd_(x)) return *this; if (is_signed<V>::value? x<(long)numeric_limits<V>::min() : x<0 && -x>(long)(numeric_limits<V>::max()>>(sizeof(V)==8))){ v=is_signed<V>::value? numeric_limits<V>::min(): numeric_limits<V>::max(); this->setstate(ios_base::failbit); } else if (sizeof(V)<8 && x>(long)numeric_limits<V>::max()){ v=numeric_limits<V>::max(); this->setstate(ios_base::failbit); } else v=(V)x; return *this; }
  basic_istream& operator>>(int& v){ return symx_int_(v); }
  basic_istream& operator>>(unsigned& v){ return symx_int_(v); }
  basic_istream& operator>>(long& v){ return symx_int_(v); }
  basic_istream& operator>>(unsigned long& v){ return symx_int_(v); }
  basic_istream& operator>>(long long& v){ return symx_int_(v); }
  basic_istream& operator>>(unsigned long long& v){ return symx_int_(v); }
  basic_istream& operator>>(short& v){ return symx_int_(v); }
  basic_istream& operator>>(unsigned short& v){ return symx_int_(v); }
  basic_istream& operator>>(bool& v){ if (this->fl_&ios_base::boolalpha){ string w; *this >> w; v = w=="true"; if (!v && w!="false") this->setstate(ios_base::failbit); return *this; } long x; if (!rd_(x)) return *this; v = x!=0; if (x!=0 && x!=1) this->setstate(ios_base::failbit); return *this; }
  basic_istream& operator>>(double& v){ if (!prep_(false)) return *this; string w; bool e=false; for(;;){ auto c=this->sb_->sgetc(); if (c==T::eof()){ this->setstate(ios_base::eofbit); break; } if (!((c>='0'&&c<='9')||c=='.'||((c=='+'||c=='-')&&(w.empty()||w.back()=='e'||w.back()=='E'))||((c=='e'||c=='E')&&!e&&!w.empty()))) break; if (c=='e'||c=='E') e=true; w+=(char)c; this->sb_->sbumpc(); } char* end=nullptr; const double d=strtod(w.c_str(),&end); if (w.empty()||*end){ v=0; this->setstate(ios_base::failbit); } else v=d; return *this; }
  basic_istream& operator>>(float& v){ double d=0; *this >> d; v=(float)d; return *this; }
  basic_istream& operator>>(long double& v){ double d=0; *this >> d; v=d; return *this; }
  basic_istream& operator>>(basic_streambuf<C,T>* b){ for(;;){ auto c=this->sb_->sbumpc(); if (c==T::eof()) break; b->sputc(T::to_char_type(c)); } return *this; }
  basic_istream& putback(C){ return unget(); }
  streamsize readsome(C* s, streamsize n){ gc_=this->sb_->sgetn(s,n); return gc_; }
  int sync(){ return 0; }
  basic_istream(basic_istream&& o): gc_(o.gc_) { o.gc_=0; }
 private:
  bool rd_(long& out){
    out=0; if (!prep_(false)) return false;
    auto bf=this->fl_&ios_base::basefield; int base= bf==ios_base::hex?16: bf==ios_base::oct?8:10;
    bool neg=false, any=false; long v=0;
    auto c=this->sb_->sgetc();
    if (c=='-'||c=='+'){ neg=c=='-'; this->sb_->sbumpc(); c=this->sb_->sgetc(); }
    bool zero=false;
    for(;;){
      if (c==T::eof()){ this->setstate(ios_base::eofbit); break; }
      int d; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='f') d=c-'a'+10; else if(c>='A'&&c<='F') d=c-'A'+10; else if ((c=='x'||c=='X')&&base==16&&zero&&v==0){ zero=false; this->sb_->sbumpc(); c=this->sb_->sgetc(); continue; } else break;
      if (d>=base) break;
      if (d==0) zero=true;
      v=v*base+d; any=true; this->sb_->sbumpc(); c=this->sb_->sgetc();
    }
    if (!any){ this->setstate(ios_base::failbit); return true; }
    out= neg?-v:v; return true;
  }
 protected:
  streamsize gc_;
};
template<class C,class T> inline basic_istream<C,T>& ws(basic_istream<C,T>& i){ for(;;){ auto c=i.rdbuf()->sgetc(); if (c==T::eof()){ i.setstate(ios_base::eofbit); break;} if(!(c==' '||(c>=9&&c<=13))) break; i.rdbuf()->sbumpc(); } return i; }
template<class T> inline basic_istream<char,T>& operator>>(basic_istream<char,T>& i, char& c){ if (i.prep_(false)){ auto v=i.rdbuf()->sbumpc(); if (v==T::eof()) i.setstate(ios_base::eofbit|ios_base::failbit); else c=(char)v; } return i; }
template<class T> inline basic_istream<char,T>& operator>>(basic_istream<char,T>& i, unsigned char& c){ char d; if (i >> d) c=(unsigned char)d; return i; }
template<class T> inline basic_istream<char,T>& operator>>(basic_istream<char,T>& i, signed char& c){ char d; if (i >> d) c=(signed char)d; return i; }
template<class I, class V> inline auto operator>>(I&& i, V&& v) -> typename enable_if<!is_lvalue_reference<I>::value && is_base_of<ios_base, typename remove_reference<I>::type>::value, I&&>::type { static_cast<basic_istream<char>&>(i) >> forward<V>(v); return move(i); }

template<class C, class T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_iostream(basic_streambuf<C,T>* b): basic_istream<C,T>(b), basic_ostream<C,T>(b) {}
};

inline namespace __cxx11 {
// string buffers -------------------------------------------------------------
template<class C, class T, class A> class basic_stringbuf : public basic_streambuf<C,T> {
 public:
  typedef typename T::int_type int_type;
  explicit basic_stringbuf(ios_base::openmode = ios_base::in|ios_base::out): pos_(0), wp_(0) {}
  explicit basic_stringbuf(const basic_string<C,T,A>& s, ios_base::openmode m = ios_base::in|ios_base::out): s_(s), pos_(0), wp_((m&(ios_base::ate|ios_base::app))?s.size():0) {}
  basic_string<C,T,A> str() const { return s_; }
  void str(const basic_string<C,T,A>& s){ s_=s; pos_=0; wp_=0; }
  int_type underflow() override { return pos_<s_.size()? T::to_int_type(s_[pos_]): T::eof(); }
  int_type uflow() override { return pos_<s_.size()? T::to_int_type(s_[pos_++]): T::eof(); }
  int_type overflow(int_type c) override { if (c!=T::eof()){ C x=T::to_char_type(c); xsputn(&x,1);} return c; }
  streamsize xsputn(const C* p, streamsize n) override { if (wp_==s_.size()){ s_.append(p,(size_t)n); wp_+=(size_t)n; } else { for (streamsize i=0;i<n;i++){ if (wp_<s_.size()) s_[wp_]=p[i]; else s_.push_back(p[i]); wp_++; } } return n; }
  void symx_seekg(long p, int wh) override { pos_ = wh==0? (size_t)p: wh==1? pos_+p: s_.size()+p; }
  long symx_tellg() override { return (long)pos_; }
  long symx_tellp() override { return (long)wp_; }
  void unget_() override { if (pos_) pos_--; }
 private:
  basic_string<C,T,A> s_; size_t pos_, wp_;
};
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C,T> {
 public:
  basic_ostringstream(basic_ostringstream&& o): basic_ostream<C,T>(&b_), b_(move(o.b_)) { this->init(&b_); this->copyfmt(o); this->st_=o.rdstate(); }
  basic_ostringstream& operator=(basic_ostringstream&& o){ b_=move(o.b_); this->copyfmt(o); this->st_=o.rdstate(); return *this; }
  void swap(basic_ostringstream& o){ std::swap(b_,o.b_); }
  explicit basic_ostringstream(ios_base::openmode=ios_base::out): basic_ostream<C,T>(&b_) { this->init(&b_); }
  explicit basic_ostringstream(const basic_string<C,T,A>& s, ios_base::openmode m=ios_base::out): basic_ostream<C,T>(&b_), b_(s,m) { this->init(&b_); }
  basic_string<C,T,A> str() const { return b_.str(); }
  void str(const basic_string<C,T,A>& s){ b_.str(s); }
  basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&b_); }
 private: basic_stringbuf<C,T,A> b_;
};
template<class C, class T, class A> class basic_istringstream : public basic_istream<C,T> {
 public:
  basic_istringstream(basic_istringstream&& o): basic_istream<C,T>(&b_), b_(move(o.b_)) { this->init(&b_); this->copyfmt(o); this->st_=o.rdstate(); }
  basic_istringstream& operator=(basic_istringstream&& o){ b_=move(o.b_); this->copyfmt(o); this->st_=o.rdstate(); return *this; }
  void swap(basic_istringstream& o){ std::swap(b_,o.b_); }
  explicit basic_istringstream(ios_base::openmode=ios_base::in): basic_istream<C,T>(&b_) { this->init(&b_); }
  explicit basic_istringstream(const basic_string<C,T,A>& s, ios_base::openmode=ios_base::in): basic_istream<C,T>(&b_), b_(s) { this->init(&b_); }
  basic_string<C,T,A> str() const { return b_.str(); }
  void str(const basic_string<C,T,A>& s){ b_.str(s); }
  basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&b_); }
 private: basic_stringbuf<C,T,A> b_;
};
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C,T> {
 public:
  basic_stringstream(basic_stringstream&& o): basic_iostream<C,T>(&b_), b_(move(o.b_)) { this->init(&b_); this->copyfmt(o); this->st_=o.rdstate(); }
  basic_stringstream& operator=(basic_stringstream&& o){ b_=move(o.b_); this->copyfmt(o); this->st_=o.rdstate(); return *this; }
  void swap(basic_stringstream& o){ std::swap(b_,o.b_); }
  explicit basic_stringstream(ios_base::openmode=ios_base::in|ios_base::out): basic_iostream<C,T>(&b_) { this->init(&b_); }
  explicit basic_stringstream(const basic_string<C,T,A>& s, ios_base::openmode m=ios_base::in|ios_base::out): basic_iostream<C,T>(&b_), b_(s,m) { this->init(&b_); }
  basic_string<C,T,A> str() const { return b_.str(); }
  void str(const basic_string<C,T,A>& s){ b_.str(s); }
  basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&b_); }
 private: basic_stringbuf<C,T,A> b_;
};

}  // inline namespace __cxx11
// files: contents are provided by the harness (symx_file_open) ------------------
template<class C, class T> class basic_filebuf : public basic_streambuf<C,T> {
 public:
  typedef typename T::int_type int_type;
  basic_filebuf(): p_(nullptr), n_(0), pos_(0), open_(false) {}
  bool is_open() const { return open_; }
  basic_filebuf* open(const char* name, ios_base::openmode m){ unsigned long n=0; if (m & ios_base::out) return nullptr; p_=(const C*)symx_file_open(name,&n); open_ = p_!=nullptr; n_=n; pos_=0; return open_? this: nullptr; }
  basic_filebuf* close(){ if(!open_) return nullptr; open_=false; n_=0; return this; }
  int_type underflow() override { return pos_<n_? T::to_int_type(p_[pos_]): T::eof(); }
  int_type uflow() override { return pos_<n_? T::to_int_type(p_[pos_++]): T::eof(); }
  void symx_seekg(long p, int wh) override { pos_ = wh==0? (size_t)p: wh==1? pos_+p: n_+p; }
  long symx_tellg() override { return (long)pos_; }
  void unget_() override { if (pos_) pos_--; }
 private: const C* p_; size_t n_, pos_; bool open_;
};
template<class C, class T> class basic_ifstream : public basic_istream<C,T> {
 public:
  basic_ifstream(): basic_istream<C,T>(&b_) { this->init(&b_); }
  explicit basic_ifstream(const char* n, ios_base::openmode m=ios_base::in): basic_istream<C,T>(&b_) { this->init(&b_); open(n,m); }
  explicit basic_ifstream(const string& n, ios_base::openmode m=ios_base::in): basic_istream<C,T>(&b_) { this->init(&b_); open(n.c_str(),m); }
  void open(const char* n, ios_base::openmode m=ios_base::in){ if (!b_.open(n,m)) this->setstate(ios_base::failbit); else this->clear(); }
  void open(const string& n, ios_base::openmode m=ios_base::in){ open(n.c_str(),m); }
  bool is_open() const { return b_.is_open(); }
  void close(){ if (!b_.close()) this->setstate(ios_base::failbit); }
  basic_filebuf<C,T>* rdbuf() const { return const_cast<basic_filebuf<C,T>*>(&b_); }
 private: basic_filebuf<C,T> b_;
};
template<class C, class T> class basic_ofstream : public basic_ostream<C,T> {
 public:
  basic_ofstream(): basic_ostream<C,T>(&b_) { this->init(&b_); }
  explicit basic_ofstream(const char* n, ios_base::openmode=ios_base::out): basic_ostream<C,T>(&b_) { (void)n; this->init(&b_); this->setstate(ios_base::failbit); }
  explicit basic_ofstream(const string& n, ios_base::openmode=ios_base::out): basic_ostream<C,T>(&b_) { (void)n; this->init(&b_); this->setstate(ios_base::failbit); }
  bool is_open() const { return false; }
  void close(){}
 private: basic_filebuf<C,T> b_;
};
template<class C, class T> class basic_fstream : public basic_iostream<C,T> {
 public: basic_fstream(): basic_iostream<C,T>(&b_) { this->init(&b_); }
 private: basic_filebuf<C,T> b_;
};

// manipulators -----------------------------------------------------------------
struct symx_setw_{int n;}; struct symx_setprec_{int n;}; struct symx_setfill_{char c;}; struct symx_setbase_{int n;}; struct symx_setf_{ios_base::fmtflags f;}; struct symx_resetf_{ios_base::fmtflags f;};
inline symx_setw_ setw(int n){ return {n}; }
inline symx_setprec_ setprecision(int n){ return {n}; }
inline symx_setfill_ setfill(char c){ return {c}; }
inline symx_setbase_ setbase(int n){ return {n}; }
inline symx_setf_ setiosflags(ios_base::fmtflags f){ return {f}; }
inline symx_resetf_ resetiosflags(ios_base::fmtflags f){ return {f}; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_setw_ m){ o.width(m.n); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_setprec_ m){ o.precision(m.n); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_setfill_ m){ o.fill(m.c); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_setbase_ m){ o.setf(m.n==16?ios_base::hex:m.n==8?ios_base::oct:m.n==10?ios_base::dec:0, ios_base::basefield); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_setf_ m){ o.setf(m.f); return o; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_resetf_ m){ o.unsetf(m.f); return o; }
template<class T> inline basic_istream<char,T>& operator>>(basic_istream<char,T>& o, symx_setw_ m){ o.width(m.n); return o; }
template<class T> inline basic_istream<char,T>& operator>>(basic_istream<char,T>& o, symx_setbase_ m){ o.setf(m.n==16?ios_base::hex:m.n==8?ios_base::oct:m.n==10?ios_base::dec:0, ios_base::basefield); return o; }
struct symx_puttime_{ const tm* t; const char* f; };
inline symx_puttime_ put_time(const tm* t, const char* f){ return {t,f}; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, symx_puttime_ m){ char b[256]; const size_t n=strftime(b,sizeof b,m.f,m.t); o.write(b,(streamsize)n); return o; }
template<class C> struct symx_quoted_{ basic_string<C> s; };
inline symx_quoted_<char> quoted(const string& s){ string r="\""; for(char c: s){ if(c=='"'||c=='\\') r+='\\'; r+=c;} r+='"'; return {r}; }
template<class T> inline basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const symx_quoted_<char>& q){ return o<<q.s; }

// getline / extraction for strings (bits/basic_string.h declares these; the
// specialisations below are what user code resolves to)
template<> inline basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d){
  if (!in.prep_(true)) return in;
  s.clear(); bool any=false;
  for(;;){ int c=in.rdbuf()->sbumpc(); if (c==-1){ in.setstate(any? ios_base::eofbit: (ios_base::eofbit|ios_base::failbit)); break; } any=true; if ((char)c==d) break; s.push_back((char)c); }
  return in;
}
template<> inline basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s){
  if (!in.prep_(false)) return in;
  s.clear(); long w=in.width(); in.width(0);
  for(;;){ int c=in.rdbuf()->sgetc(); if (c==-1){ in.setstate(ios_base::eofbit); break; } if (c==' '||(c>=9&&c<=13)) break; s.push_back((char)c); in.rdbuf()->sbumpc(); if (w>0 && (long)s.size()>=w) break; }
  if (s.empty()) in.setstate(ios_base::failbit);
  return in;
}

// standard streams --------------------------------------------------------------
class symx_stdoutbuf : public basic_streambuf<char, char_traits<char>> {
 public: explicit symx_stdoutbuf(int fd): fd_(fd) {}
  streamsize xsputn(const char* p, streamsize n) override { symx_out_write(fd_,p,(unsigned long)n); return n; }
  int overflow(int c) override { if (c!=-1){ char x=(char)c; symx_out_write(fd_,&x,1);} return c; }
 private: int fd_;
};
class symx_stdinbuf : public basic_streambuf<char, char_traits<char>> {
 public: int pk_; symx_stdinbuf(): pk_(-2) {}
  int underflow() override { if (pk_==-2) pk_=getchar(); return pk_; }
  int uflow() override { int c=pk_; if (c==-2) return getchar(); if (c!=-1) pk_=-2; return c; }
};
extern istream cin;
extern ostream cout;
extern ostream cerr;
extern ostream clog;
}  // namespace std
#endif
