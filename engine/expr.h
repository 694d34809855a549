// Bit-vector / float expression DAG: hash-consing, simplification, exact finite
// tables, evaluation, translation to Z3.
#pragma once
#include <z3.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_SLT, E_NOT, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_TAB,
  E_FPINT, E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FUNO, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPCVT, E_FUN1 };

struct Supp { u64 b[4]; bool inter(const Supp& o) const { return (b[0]&o.b[0])|(b[1]&o.b[1])|(b[2]&o.b[2])|(b[3]&o.b[3]); } void add(const Supp&o){ for(int i=0;i<4;i++) b[i]|=o.b[i]; } };
struct Table { std::vector<u64> v; u64 h; };
struct Expr {
  EOp op; u8 w; u16 pad; u32 id;
  Expr *a,*b,*c; u64 k;            // k: const value / extract lo / var index / fp bound
  Table* tab;
  u64 kz, ko, lo, hi;
  Supp s;
  Z3_ast z; u64 stamp, val;
};
static inline u64 mask(int w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v,int w){ return w>=64? (i64)v : ((i64)(v<<(64-w)))>>(64-w); }
static const u64 TABMAX = 1ull<<18;

struct VarInfo { std::string name; int w; int kind; };   // kind 0 input, 1 uninitialised/havoc
extern std::vector<VarInfo> g_vars;
std::vector<VarInfo> g_vars;

struct EKey { EOp op; u8 w; Expr*a,*b,*c; u64 k; Table*t; };
struct ExprPool {
  std::vector<Expr*> tabl; size_t n=0; u64 nid=0;
  char* arena=nullptr; size_t left=0;
  ExprPool(){ tabl.assign(1<<16,nullptr); }
  static u64 hashk(const EKey&k){ u64 h=(u64)k.op*0x9E3779B97F4A7C15ull + k.w*0xC2B2AE3D27D4EB4Full; auto mix=[&](u64 x){ h^=x; h*=0xff51afd7ed558ccdull; h^=h>>32; }; mix((u64)k.a); mix((u64)k.b); mix((u64)k.c); mix(k.k); mix((u64)k.t); return h; }
  void* alloc(size_t s){ if (left<s){ arena=(char*)malloc(1<<20); left=1<<20; } void*p=arena; arena+=s; left-=s; return p; }
  Expr* get(const EKey&k, bool&fresh){
    u64 h=hashk(k); size_t m=tabl.size()-1; size_t i=h&m;
    while(tabl[i]){ Expr*e=tabl[i]; if (e->op==k.op&&e->w==k.w&&e->a==k.a&&e->b==k.b&&e->c==k.c&&e->k==k.k&&e->tab==k.t){ fresh=false; return e; } i=(i+1)&m; }
    Expr*e=(Expr*)alloc(sizeof(Expr)); memset(e,0,sizeof *e); e->op=k.op; e->w=k.w; e->a=k.a; e->b=k.b; e->c=k.c; e->k=k.k; e->tab=k.t; e->id=(u32)nid++;
    tabl[i]=e; n++; fresh=true;
    if (n*2>tabl.size()){ std::vector<Expr*> o; o.swap(tabl); tabl.assign(o.size()*2,nullptr); size_t mm=tabl.size()-1; for(Expr*x:o) if(x){ EKey q{x->op,x->w,x->a,x->b,x->c,x->k,x->tab}; size_t j=hashk(q)&mm; while(tabl[j]) j=(j+1)&mm; tabl[j]=x; } }
    return e;
  }
};
static ExprPool g_pool;
static std::unordered_multimap<u64,Table*> g_tables;
static Table* internTab(std::vector<u64>&&v){
  u64 h=v.size()*0x9E3779B97F4A7C15ull; for(u64 x:v){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); }
  auto r=g_tables.equal_range(h); for(auto it=r.first;it!=r.second;++it) if(it->second->v==v) return it->second;
  Table*t=new Table; t->v=std::move(v); t->h=h; g_tables.emplace(h,t); return t;
}

Expr* mkConst(u64 v,int w); Expr* mkAdd(Expr*,Expr*); Expr* mkSub(Expr*,Expr*); Expr* mkMul(Expr*,Expr*); Expr* mkAnd(Expr*,Expr*); Expr* mkOr(Expr*,Expr*); Expr* mkXor(Expr*,Expr*); Expr* mkNot(Expr*); Expr* mkEq(Expr*,Expr*); Expr* mkUlt(Expr*,Expr*); Expr* mkSlt(Expr*,Expr*); Expr* mkIte(Expr*,Expr*,Expr*); Expr* mkConcat(Expr*,Expr*); Expr* mkExtract(Expr*,int lo,int w); Expr* mkZext(Expr*,int w); Expr* mkSext(Expr*,int w); Expr* mkShl(Expr*,Expr*); Expr* mkLshr(Expr*,Expr*); Expr* mkAshr(Expr*,Expr*); Expr* mkDivRem(EOp,Expr*,Expr*); Expr* mkTab(Expr*X,std::vector<u64>&&v,int w);

static inline int lz(u64 v){ return v? __builtin_clzll(v):64; }
static u64 evalOp(EOp op,int w,int wa,u64 k,u64 a,u64 b,u64 c);   // concrete semantics

static void computeInfo(Expr*e){
  u64 m=mask(e->w); u64 kz=~m, ko=0, lo=0, hi=m; Expr*a=e->a,*b=e->b,*c=e->c;
  if (a) e->s=a->s; if (b) e->s.add(b->s); if (c) e->s.add(c->s);
  switch(e->op){
    case E_CONST: kz=~e->k; ko=e->k; lo=hi=e->k; break;
    case E_VAR: { u64 id=e->k&255; e->s.b[id>>6]|=1ull<<(id&63); break; }
    case E_AND: kz=a->kz|b->kz; ko=a->ko&b->ko; hi=std::min(a->hi,b->hi); break;
    case E_OR: kz=a->kz&b->kz; ko=a->ko|b->ko; lo=std::max(a->lo,b->lo); break;
    case E_XOR: kz=(a->kz&b->kz)|(a->ko&b->ko); ko=(a->kz&b->ko)|(a->ko&b->kz); break;
    case E_NOT: lo=0; hi=1; break;
    case E_ADD: { u64 l,h; if(!__builtin_add_overflow(a->hi,b->hi,&h)&&h<=m){ l=a->lo+b->lo; lo=l; hi=h; }
      u64 tz=std::min(a->kz==~0ull?64:__builtin_ctzll(~a->kz), b->kz==~0ull?64:__builtin_ctzll(~b->kz)); if(tz) kz|=mask((int)tz); break; }
    case E_SUB: if (a->lo>=b->hi){ lo=a->lo-b->hi; hi=a->hi-b->lo; } break;
    case E_MUL: { unsigned __int128 h=(unsigned __int128)a->hi*b->hi; if(h<=m){ lo=a->lo*b->lo; hi=(u64)h; }
      u64 tz=(a->kz==~0ull?64:__builtin_ctzll(~a->kz))+(b->kz==~0ull?64:__builtin_ctzll(~b->kz)); if(tz>64)tz=64; if(tz) kz|=mask((int)tz); break; }
    case E_UDIV: if(b->lo>0){ lo=a->lo/b->hi; hi=a->hi/b->lo; } break;
    case E_UREM: if(b->lo>0){ hi=std::min(a->hi,b->hi-1); } break;
    case E_ITE: kz=b->kz&c->kz; ko=b->ko&c->ko; lo=std::min(b->lo,c->lo); hi=std::max(b->hi,c->hi); break;
    case E_CONCAT: kz=(a->kz<<b->w)|(b->kz&mask(b->w)); ko=(a->ko<<b->w)|b->ko; lo=(a->lo<<b->w)+b->lo; hi=(a->hi<<b->w)+b->hi; break;
    case E_EXTRACT: kz=a->kz>>e->k; ko=(a->ko>>e->k)&m; if(e->k==0&&a->hi<=m){lo=a->lo;hi=a->hi;} else if (e->k && (a->hi>>e->k)<=m){ lo=a->lo>>e->k; hi=a->hi>>e->k; } break;
    case E_ZEXT: kz=a->kz; ko=a->ko; lo=a->lo; hi=a->hi; break;
    case E_SEXT: if(a->kz>>(a->w-1)&1){ kz=a->kz; ko=a->ko; lo=a->lo; hi=a->hi; } else { kz=(a->kz&mask(a->w-1)); ko=(a->ko&mask(a->w)); } break;
    case E_SHL: hi=m; break;
    case E_LSHR: hi=a->hi>>std::min<u64>(b->lo,63); break;
    case E_TAB: { u64 A=~0ull,O=0,L=~0ull,H=0; for(u64 v:e->tab->v){ A&=v;O|=v; L=std::min(L,v);H=std::max(H,v);} kz=~O; ko=A; lo=L; hi=H; break; }
    default: break;
  }
  kz|=~m; ko&=m;
  // cross-refine
  u64 up=~kz; if (hi>up) hi=up; if (lo<ko) lo=ko;
  if (hi<m){ int z=lz(hi); kz|= z>=64? ~0ull : ~(~0ull>>z); }
  e->kz=kz; e->ko=ko; e->lo=lo; e->hi=hi;
}
static Expr* mk(EOp op,int w,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr,u64 k=0,Table*t=nullptr){
  EKey q{op,(u8)w,a,b,c,k,t}; bool f; Expr*e=g_pool.get(q,f); if(f){ computeInfo(e); if (op!=E_CONST && e->lo==e->hi && op!=E_VAR) { /* fully determined */ } } return e;
}
static Expr* fin(Expr*e){ if (e->op!=E_CONST && e->lo==e->hi) return mkConst(e->lo,e->w); return e; }
Expr* mkConst(u64 v,int w){ return mk(E_CONST,w,nullptr,nullptr,nullptr,v&mask(w)); }
static Expr* mkVar(const std::string&name,int w,int kind){ u64 id=g_vars.size(); g_vars.push_back({name,w,kind}); return mk(E_VAR,w,nullptr,nullptr,nullptr,id); }
static inline bool isC(Expr*e){ return e->op==E_CONST; }
static Expr* T1(){ static Expr*t=mkConst(1,1); return t; } static Expr* F1(){ static Expr*t=mkConst(0,1); return t; }

// ---- tables ---------------------------------------------------------------
// Write e as exact function of a core expression X of small range.
static bool tabOf(Expr*e, Expr*&X, std::vector<u64>&out, u64 max=TABMAX, int depth=0){
  if (e->op==E_TAB){ X=e->a; out=e->tab->v; return true; }
  auto un=[&](Expr*in,auto f)->bool{ if(depth>24) return false; if(!tabOf(in,X,out,max,depth+1)) return false; for(auto&v:out) v=f(v); return true; };
  u64 m=mask(e->w);
  switch(e->op){
    case E_ZEXT: return un(e->a,[](u64 v){return v;});
    case E_SEXT: if (un(e->a,[&](u64 v){return (u64)sx(v,e->a->w)&m;})) return true; break;
    case E_ADD: if (isC(e->b)&&un(e->a,[&](u64 v){return (v+e->b->k)&m;})) return true; break;
    case E_XOR: if (isC(e->b)&&un(e->a,[&](u64 v){return (v^e->b->k)&m;})) return true; break;
    case E_MUL: if (isC(e->b)&&un(e->a,[&](u64 v){return (v*e->b->k)&m;})) return true; break;
    case E_NOT: if (un(e->a,[&](u64 v){return v^1;})) return true; break;
    case E_EQ: if (isC(e->b)&&(e->a->hi-e->a->lo<max)&&un(e->a,[&](u64 v){return (u64)(v==e->b->k);})) return true; break;
    case E_ULT: if (isC(e->b)&&(e->a->hi-e->a->lo<max)&&un(e->a,[&](u64 v){return (u64)(v<e->b->k);})) return true; if (isC(e->a)&&(e->b->hi-e->b->lo<max)&&un(e->b,[&](u64 v){return (u64)(e->a->k<v);})) return true; break;
    case E_CONCAT: if (isC(e->b)&&un(e->a,[&](u64 v){return (v<<e->b->w|e->b->k)&m;})) return true; if (isC(e->a)&&un(e->b,[&](u64 v){return (v|e->a->k<<e->b->w)&m;})) return true; break;
    case E_FPINT: case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI: case E_FPCVT: case E_FUN1: return un(e->a,[&](u64 v){return evalOp(e->op,e->w,e->a->w,e->k,v,0,0);});
    default: break;
  }
  if (e->op>=E_FPINT && !(e->op==E_FEQ||e->op==E_FLT||e->op==E_FLE)) return false;
  if (isC(e)) return false;
  if (e->hi-e->lo<max){ X=e; out.resize(e->hi-e->lo+1); for(u64 i=0;i<out.size();i++) out[i]=e->lo+i; return true; }
  return false;
}
// pointwise binary over tables (one may be const); only when profitable
static Expr* tab2(EOp op,int w,Expr*a,Expr*b,u64 k=0){
  Expr*X=nullptr,*Y=nullptr; std::vector<u64> va,vb;
  if (isC(b)){ if(!tabOf(a,X,va)) return nullptr; for(auto&v:va) v=evalOp(op,w,a->w,k,v,b->k,0); return mkTab(X,std::move(va),w); }
  if (isC(a)){ if(!tabOf(b,X,vb)) return nullptr; for(auto&v:vb) v=evalOp(op,w,a->w,k,a->k,v,0); return mkTab(X,std::move(vb),w); }
  if(!tabOf(a,X,va)||!tabOf(b,Y,vb)) return nullptr;
  if (X!=Y) return nullptr;
  for(size_t i=0;i<va.size();i++) va[i]=evalOp(op,w,a->w,k,va[i],vb[i],0);
  return mkTab(X,std::move(va),w);
}
static Expr* tab1(EOp op,int w,Expr*a,u64 k=0){ Expr*X; std::vector<u64> va; if(!tabOf(a,X,va)) return nullptr; for(auto&v:va) v=evalOp(op,w,a->w,k,v,0,0); return mkTab(X,std::move(va),w); }
Expr* mkTab(Expr*X,std::vector<u64>&&v,int w){
  if (isC(X)) return mkConst(v[0],w);
  if (X->op==E_TAB){ std::vector<u64> r(X->tab->v.size()); for(size_t i=0;i<r.size();i++) r[i]=v[X->tab->v[i]-X->lo]; return mkTab(X->a,std::move(r),w); }
  // entries for impossible X (by known bits): copy neighbour
  if ((X->kz&mask(X->w))|X->ko){ size_t good=~0ull; for(size_t i=0;i<v.size();i++){ u64 x=X->lo+i; if((x&X->kz&mask(X->w))==0 && (X->ko&~x)==0){ if(good==~0ull) for(size_t j=0;j<i;j++) v[j]=v[i]; good=i; } else if (good!=~0ull) v[i]=v[good]; } }
  bool same=true, ident=true; for(size_t i=0;i<v.size();i++){ if(v[i]!=v[0]) same=false; if(v[i]!=X->lo+i) { u64 x=X->lo+i; if((x&X->kz&mask(X->w))==0 && (X->ko&~x)==0) ident=false; } if(!same&&!ident) break; }
  if (same) return mkConst(v[0],w);
  if (ident){ if (w==X->w) return X; if (w>X->w) return mkZext(X,w); return mkExtract(X,0,w); }
  if (w==1){
    size_t ones=0, tr=0; for(size_t i=0;i<v.size();i++){ ones+=v[i]; if(i&&v[i]!=v[i-1]) tr++; }
    if (ones==1||ones+1==v.size()){ u64 t= ones==1?1:0; if (!(v.size()==2)) for(size_t i=0;i<v.size();i++) if(v[i]==t){ Expr*q=mk(E_EQ,1,X,mkConst(X->lo+i,X->w)); return t? q: mkNot(q); } }
    if (tr==1){ size_t i=1; while(v[i]==v[0]) i++; Expr*q=mk(E_ULT,1,X,mkConst(X->lo+i,X->w)); return v[0]? q: mkNot(q); }
  }
  Table*t=internTab(std::move(v));
  return mk(E_TAB,w,X,nullptr,nullptr,0,t);
}
static inline bool anyTab(Expr*a,Expr*b){ return a->op==E_TAB||b->op==E_TAB; }
static inline bool tabLike(Expr*a){ while(a->op==E_ZEXT||a->op==E_NOT||a->op==E_SEXT) a=a->a; return a->op==E_TAB; }

// ---- concrete semantics ----------------------------------------------------
static inline float asF(u64 v){ u32 x=(u32)v; float f; memcpy(&f,&x,4); return f; } static inline double asD(u64 v){ double f; memcpy(&f,&v,8); return f; }
static inline u64 frF(float f){ u32 x; memcpy(&x,&f,4); return x; } static inline u64 frD(double f){ u64 x; memcpy(&x,&f,8); return x; }
enum { F1_FLOOR=1,F1_CEIL,F1_TRUNC,F1_ROUND,F1_RINT,F1_SQRT,F1_LROUND,F1_LRINT,F1_SIN,F1_COS,F1_EXP,F1_LOG,F1_LOG10,F1_LOG2,F1_FABS };
static double fun1(u64 k,double x){ switch(k){ case F1_FLOOR:return floor(x); case F1_CEIL:return ceil(x); case F1_TRUNC:return trunc(x); case F1_ROUND:return round(x); case F1_RINT:return rint(x); case F1_SQRT:return sqrt(x); case F1_SIN:return sin(x); case F1_COS:return cos(x); case F1_EXP:return exp(x); case F1_LOG:return log(x); case F1_LOG10:return log10(x); case F1_LOG2:return log2(x); case F1_FABS:return fabs(x);} return 0; }
static u64 evalOp(EOp op,int w,int wa,u64 k,u64 a,u64 b,u64 c){
  u64 m=mask(w);
  switch(op){
    case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
    case E_UDIV: return b? a/b : m; case E_UREM: return b? a%b : a;
    case E_SDIV: { i64 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if (y==-1) return (0-(u64)x)&m; return (u64)(x/y)&m; }
    case E_SREM: { i64 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
    case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
    case E_SHL: return b>=(u64)w?0:(a<<b)&m; case E_LSHR: return b>=(u64)w?0:a>>b; case E_ASHR: { i64 x=sx(a,w); return (u64)(b>=(u64)w? (x<0?-1:0) : x>>b)&m; }
    case E_EQ: return a==b; case E_ULT: return a<b; case E_SLT: return sx(a,wa)<sx(b,wa); case E_NOT: return a^1; case E_ITE: return a?b:c;
    case E_EXTRACT: return (a>>k)&m; case E_ZEXT: return a; case E_SEXT: return (u64)sx(a,wa)&m;
    case E_FPINT: { double d=ldexp((double)(int)(u32)a,-(int)(k>>32)); return w==32? frF((float)d): frD(d); }
    case E_FADD: return w==32? frF(asF(a)+asF(b)): frD(asD(a)+asD(b)); case E_FSUB: return w==32? frF(asF(a)-asF(b)): frD(asD(a)-asD(b));
    case E_FMUL: return w==32? frF(asF(a)*asF(b)): frD(asD(a)*asD(b)); case E_FDIV: return w==32? frF(asF(a)/asF(b)): frD(asD(a)/asD(b));
    case E_FEQ: return wa==32? asF(a)==asF(b): asD(a)==asD(b); case E_FLT: return wa==32? asF(a)<asF(b): asD(a)<asD(b); case E_FLE: return wa==32? asF(a)<=asF(b): asD(a)<=asD(b);
    case E_FUNO: { double x=wa==32?asF(a):asD(a), y=wa==32?asF(b):asD(b); return std::isnan(x)||std::isnan(y); }
    case E_SITOFP: { i64 v=sx(a,wa); return w==32? frF((float)v): frD((double)v); } case E_UITOFP: return w==32? frF((float)a): frD((double)a);
    case E_FPTOSI: { double d=wa==32?asF(a):asD(a); if (!(d>-9.3e18&&d<9.3e18)) return (1ull<<(w-1)); return (u64)(i64)d&m; }
    case E_FPTOUI: { double d=wa==32?asF(a):asD(a); if (!(d>-9.3e18&&d<1.8e19)) return 0; return d<0? (u64)(i64)d&m: (u64)d&m; }
    case E_FPCVT: return w==64? frD((double)asF(a)): frF((float)asD(a));
    case E_FUN1: { double d=wa==32?asF(a):asD(a);
      if (k==F1_LROUND) return (u64)(i64)(wa==32? lroundf(asF(a)): lround(d))&m; if (k==F1_LRINT) return (u64)(i64)lrint(d)&m;
      if (wa==32){ switch(k){ case F1_SQRT: return frF(sqrtf(asF(a))); case F1_SIN: return frF(sinf(asF(a))); case F1_COS: return frF(cosf(asF(a))); case F1_EXP: return frF(expf(asF(a))); case F1_LOG: return frF(logf(asF(a))); case F1_LOG10: return frF(log10f(asF(a))); case F1_LOG2: return frF(log2f(asF(a))); } return frF((float)fun1(k,d)); }
      return frD(fun1(k,d)); }
    default: abort();
  }
}

// ---- segments: view of an expression as concatenation --------------------------
struct Seg { int pos,w; Expr*e; };   // e==nullptr: zero bits
static void segs(Expr*e,int pos,std::vector<Seg>&o,int depth=0){
  if (depth<40){
    if (e->op==E_CONCAT){ segs(e->b,pos,o,depth+1); segs(e->a,pos+e->b->w,o,depth+1); return; }
    if (e->op==E_ZEXT){ segs(e->a,pos,o,depth+1); o.push_back({pos+e->a->w,e->w-e->a->w,nullptr}); return; }
    if (e->op==E_CONST){ int i=0; while(i<e->w){ bool b=e->k>>i&1; int j=i; while(j<e->w&&(bool)(e->k>>j&1)==b) j++; o.push_back({pos+i,j-i,b? mkConst(~0ull,j-i):nullptr}); i=j; } return; }
  }
  // split off known zero high/low parts
  u64 nz=~e->kz&mask(e->w); if (nz==0){ o.push_back({pos,e->w,nullptr}); return; }
  int l=__builtin_ctzll(nz), h=64-lz(nz);
  if (l>0||h<e->w){ if(l) o.push_back({pos,l,nullptr}); o.push_back({pos+l,h-l,mkExtract(e,l,h-l)}); if(h<e->w) o.push_back({pos+h,e->w-h,nullptr}); return; }
  o.push_back({pos,e->w,e});
}
static Expr* segJoin(std::vector<Seg>&v){ Expr*r=nullptr; for(auto&s:v){ Expr*x=s.e? s.e: mkConst(0,s.w); r= r? mkConcat(x,r): x; } return r; }
static Expr* orDisjoint(Expr*a,Expr*b){   // requires possible-ones disjoint
  std::vector<Seg> A,B,R; segs(a,0,A); segs(b,0,B); size_t i=0,j=0; int pos=0; int w=a->w;
  while(pos<w){ while(A[i].pos+A[i].w<=pos) i++; while(B[j].pos+B[j].w<=pos) j++; int end=std::min(A[i].pos+A[i].w,B[j].pos+B[j].w);
    if (A[i].e&&B[j].e) return nullptr; Seg&s= A[i].e? A[i]: B[j]; R.push_back({pos,end-pos, s.e? mkExtract(s.e,pos-s.pos,end-pos): nullptr}); pos=end; }
  return segJoin(R);
}

Expr* mkExtract(Expr*e,int lo,int w){
  if (lo==0&&w==e->w) return e;
  if (isC(e)) return mkConst(e->k>>lo,w);
  u64 m=mask(w);
  if (((e->kz>>lo)&m)==m) return mkConst(0,w);
  if ((((e->kz|e->ko)>>lo)&m)==m) return mkConst(e->ko>>lo,w);
  switch(e->op){
    case E_EXTRACT: return mkExtract(e->a,lo+(int)e->k,w);
    case E_CONCAT: { int bw=e->b->w; if (lo+w<=bw) return mkExtract(e->b,lo,w); if (lo>=bw) return mkExtract(e->a,lo-bw,w); return mkConcat(mkExtract(e->a,0,lo+w-bw),mkExtract(e->b,lo,bw-lo)); }
    case E_ZEXT: { int aw=e->a->w; if (lo>=aw) return mkConst(0,w); if (lo+w<=aw) return mkExtract(e->a,lo,w); return mkZext(mkExtract(e->a,lo,aw-lo),w); }
    case E_SEXT: { int aw=e->a->w; if (lo+w<=aw) return mkExtract(e->a,lo,w); if (lo<aw) return mkSext(mkExtract(e->a,lo,aw-lo),w); return mkSext(mkExtract(e->a,aw-1,1),w); }
    case E_AND: case E_OR: case E_XOR: if (isC(e->b)||w<=8||e->a->op==E_CONCAT||e->b->op==E_CONCAT||e->a->op==E_ZEXT||e->b->op==E_ZEXT){ Expr*a=mkExtract(e->a,lo,w),*b=mkExtract(e->b,lo,w); return e->op==E_AND? mkAnd(a,b): e->op==E_OR? mkOr(a,b): mkXor(a,b); } break;
    case E_ADD: case E_SUB: case E_MUL: if (lo==0){ Expr*a=mkExtract(e->a,0,w),*b=mkExtract(e->b,0,w); return e->op==E_ADD? mkAdd(a,b): e->op==E_SUB? mkSub(a,b): mkMul(a,b); } break;
    case E_ITE: if (isC(e->b)||isC(e->c)||e->b->op==E_CONCAT||e->c->op==E_CONCAT||e->b->op==E_ZEXT||e->c->op==E_ZEXT||w==8) return mkIte(e->a,mkExtract(e->b,lo,w),mkExtract(e->c,lo,w)); break;
    case E_TAB: { std::vector<u64> v=e->tab->v; for(auto&x:v) x=(x>>lo)&m; return mkTab(e->a,std::move(v),w); }
    default: break;
  }
  return fin(mk(E_EXTRACT,w,e,nullptr,nullptr,lo));
}
static Expr* catMerge(Expr*h,Expr*l){
  if (isC(h)&&isC(l)) return mkConst(h->k<<l->w|l->k,h->w+l->w);
  if (h->op==E_EXTRACT&&l->op==E_EXTRACT&&h->a==l->a&&h->k==l->k+l->w) return mkExtract(l->a,(int)l->k,h->w+l->w);
  // l is a narrower full expression, h an extract of the same
  if (h->op==E_TAB&&l->op==E_TAB&&h->a==l->a){ std::vector<u64> v=h->tab->v; for(size_t i=0;i<v.size();i++) v[i]=v[i]<<l->w|l->tab->v[i]; return mkTab(h->a,std::move(v),h->w+l->w); }
  if (h->op==E_TAB&&isC(l)){ std::vector<u64> v=h->tab->v; for(auto&x:v) x=x<<l->w|l->k; return mkTab(h->a,std::move(v),h->w+l->w); }
  if (isC(h)&&h->k&&l->op==E_TAB){ std::vector<u64> v=l->tab->v; for(auto&x:v) x|=h->k<<l->w; return mkTab(l->a,std::move(v),h->w+l->w); }
  if ((h->op==E_EQ||h->op==E_NOT||h->op==E_ULT||l->op==E_EQ||l->op==E_NOT||l->op==E_ULT)&&(h->op==E_TAB||l->op==E_TAB)){ Expr*X,*Y; std::vector<u64> a,b; if(tabOf(h,X,a)&&tabOf(l,Y,b)&&X==Y){ for(size_t i=0;i<a.size();i++) a[i]=a[i]<<l->w|b[i]; return mkTab(X,std::move(a),h->w+l->w);} }
  if (h->op==E_ITE&&l->op==E_ITE&&h->a==l->a) return mkIte(h->a,mkConcat(h->b,l->b),mkConcat(h->c,l->c));
  return nullptr;
}
Expr* mkConcat(Expr*h,Expr*l){
  int w=h->w+l->w; if (w>64) { fprintf(stderr,"concat too wide\n"); abort(); }
  if (isC(h)&&h->k==0) return mkZext(l,w);
  if (h->op==E_CONCAT) return mkConcat(h->a,mkConcat(h->b,l));
  if (h->op==E_ZEXT) return mkZext(mkConcat(h->a,l),w);
  if (Expr*m=catMerge(h,l)) return m;
  if (l->op==E_CONCAT){ if (Expr*m=catMerge(h,l->a)) return mkConcat(m,l->b); }
  if (l->op==E_ZEXT){ Expr*z=mkConst(0,l->w-l->a->w); if (isC(h)) return mkConcat(mkConst(h->k<<z->w,h->w+z->w),l->a); return mk(E_CONCAT,w,h,mk(E_CONCAT,l->w,z,l->a)); }
  return mk(E_CONCAT,w,h,l);
}
Expr* mkZext(Expr*e,int w){
  if (w==e->w) return e; if (isC(e)) return mkConst(e->k,w);
  if (e->op==E_ZEXT) return mkZext(e->a,w);
  if (e->op==E_CONCAT&&isC(e->a)&&e->a->k==0) return mkZext(e->b,w);
  if (e->op==E_TAB){ return mk(E_TAB,w,e->a,nullptr,nullptr,0,e->tab); }
  // strip known-zero top bits
  int h=64-lz(~e->kz&mask(e->w)); if (h==0) return mkConst(0,w);
  if (h<e->w && (e->op==E_EXTRACT||e->op==E_CONCAT||e->op==E_AND)) { Expr*x=mkExtract(e,0,h); if (x->op!=E_EXTRACT||x->a!=e) return mkZext(x,w); }
  return mk(E_ZEXT,w,e);
}
Expr* mkSext(Expr*e,int w){
  if (w==e->w) return e; if (isC(e)) return mkConst((u64)sx(e->k,e->w),w);
  if (e->kz>>(e->w-1)&1) return mkZext(e,w);
  if (e->op==E_TAB) { std::vector<u64> v=e->tab->v; u64 m=mask(w); for(auto&x:v) x=(u64)sx(x,e->w)&m; return mkTab(e->a,std::move(v),w); }
  if (e->op==E_ITE&&isC(e->b)&&isC(e->c)) return mkIte(e->a,mkSext(e->b,w),mkSext(e->c,w));
  if (e->w==1) return mkIte(e,mkConst(~0ull,w),mkConst(0,w));
  if (e->op==E_SEXT) return mkSext(e->a,w);
  return mk(E_SEXT,w,e);
}
#define BINPRE(OP) \
  if (isC(a)&&isC(b)) return mkConst(evalOp(OP,a->w,a->w,0,a->k,b->k,0),a->w); \
  if (tabLike(a)||tabLike(b)) { if (Expr*t=tab2(OP,a->w,a,b)) return t; } \
  if (isC(b)&&a->op==E_ITE&&(isC(a->b)||isC(a->c))) { Expr*p=bin_(OP,a->b,b),*q=bin_(OP,a->c,b); return mkIte(a->a,p,q); } \
  if (isC(a)&&b->op==E_ITE&&(isC(b->b)||isC(b->c))) { Expr*p=bin_(OP,a,b->b),*q=bin_(OP,a,b->c); return mkIte(b->a,p,q); }
static Expr* bin_(EOp op,Expr*a,Expr*b){ switch(op){ case E_ADD:return mkAdd(a,b); case E_SUB:return mkSub(a,b); case E_MUL:return mkMul(a,b); case E_AND:return mkAnd(a,b); case E_OR:return mkOr(a,b); case E_XOR:return mkXor(a,b); case E_SHL:return mkShl(a,b); case E_LSHR:return mkLshr(a,b); case E_ASHR:return mkAshr(a,b); default:return mkDivRem(op,a,b);} }
static Expr* removeAddend(Expr*sum,Expr*t,int d){ if (d==0||sum->op!=E_ADD) return nullptr; if (sum->a==t) return sum->b; if (sum->b==t) return sum->a; if (Expr*r=removeAddend(sum->a,t,d-1)) return mkAdd(r,sum->b); if (Expr*r=removeAddend(sum->b,t,d-1)) return mkAdd(sum->a,r); return nullptr; }
Expr* mkAdd(Expr*a,Expr*b){
  if (isC(a)) std::swap(a,b);
  if (isC(b)&&b->k==0) return a;
  BINPRE(E_ADD)
  if (isC(b)){
    if (a->op==E_ADD&&isC(a->b)) return mkAdd(a->a,mkConst(a->b->k+b->k,a->w));
    if (a->op==E_SUB&&isC(a->a)) return mkSub(mkConst(a->a->k+b->k,a->w),a->b);
  } else {
    if (a->op==E_ADD&&isC(a->b)) return mkAdd(mkAdd(a->a,b),a->b);
    if (b->op==E_ADD&&isC(b->b)) return mkAdd(mkAdd(a,b->a),b->b);
  }
  if (((~a->kz)&(~b->kz))==0){ if (Expr*r=orDisjoint(a,b)) return r; }
  if (a->op==E_SUB&&a->b==b) return a->a; if (b->op==E_SUB&&b->b==a) return b->a;
  if (a->w==1) return mkXor(a,b);
  // narrow
  if (a->w>8){ u64 h; if(!__builtin_add_overflow(a->hi,b->hi,&h)){ int nb=64-lz(h); if (nb==0) nb=1; if (nb+1<a->w/2 || (a->w>32&&nb<=24)) { if (nb<a->w&&!isC(b)) return mkZext(mkAdd(mkExtract(a,0,nb),mkExtract(b,0,nb)),a->w); } } }
  if (!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(mk(E_ADD,a->w,a,b));
}
Expr* mkSub(Expr*a,Expr*b){
  if (isC(b)) return mkAdd(a,mkConst(0-b->k,a->w));
  if (a==b) return mkConst(0,a->w);
  BINPRE(E_SUB)
  if (a->op==E_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; }
  if (a->op==E_ADD&&isC(a->b)) return mkAdd(mkSub(a->a,b),a->b);
  if (b->op==E_ADD&&isC(b->b)) return mkAdd(mkSub(a,b->a),mkConst(0-b->b->k,a->w));
  if (a->op==E_SUB&&a->a==b) return mkSub(mkConst(0,a->w),a->b);
  if (a->op==E_ADD) if (Expr*r=removeAddend(a,b,20)) return r;
  if (a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->op==E_ADD) if (a->a->w==b->a->w) if (Expr*r=removeAddend(a->a,b->a,20)) { if (a->a->hi<=mask(a->a->w)) return mkZext(r,a->w); }
  if (a->w==1) return mkXor(a,b);
  return fin(mk(E_SUB,a->w,a,b));
}
Expr* mkMul(Expr*a,Expr*b){
  if (isC(a)) std::swap(a,b);
  if (isC(b)){ if (b->k==0) return b; if (b->k==1) return a; if ((b->k&(b->k-1))==0) return mkShl(a,mkConst(__builtin_ctzll(b->k),a->w)); }
  BINPRE(E_MUL)
  if (isC(b)&&a->op==E_ZEXT&&a->a->w==1) return mkIte(a->a,b,mkConst(0,a->w));
  if (a->w>8){ unsigned __int128 h=(unsigned __int128)a->hi*b->hi; if(h<=mask(a->w)){ int nb=64-lz((u64)h); if (nb==0) return mkConst(0,a->w); if (nb<a->w) { Expr*x=mkExtract(a,0,nb),*y=mkExtract(b,0,nb); if (!(x->op==E_EXTRACT&&x->a==a)&&!(y->op==E_EXTRACT&&y->a==b)) return mkZext(mkMul(x,y),a->w); } } }
  if (!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(mk(E_MUL,a->w,a,b));
}
Expr* mkDivRem(EOp op,Expr*a,Expr*b){
  if (isC(a)&&isC(b)) return mkConst(evalOp(op,a->w,a->w,0,a->k,b->k,0),a->w);
  if (op==E_SDIV||op==E_SREM){ u64 sb=1ull<<(a->w-1); if ((a->kz&sb)&&(b->kz&sb)) return mkDivRem(op==E_SDIV?E_UDIV:E_UREM,a,b); }
  if (isC(b)&&b->k==1) return (op==E_UDIV||op==E_SDIV)? a: mkConst(0,a->w);
  if (isC(b)&&(op==E_UDIV||op==E_UREM)&&b->k&&(b->k&(b->k-1))==0){ int s=__builtin_ctzll(b->k); if (op==E_UDIV) return mkLshr(a,mkConst(s,a->w)); return mkAnd(a,mkConst(b->k-1,a->w)); }
  if (op==E_UDIV&&isC(b)&&a->hi<b->k) return mkConst(0,a->w);
  if (op==E_UREM&&isC(b)&&a->hi<b->k) return a;
  if (Expr*t=tab2(op,a->w,a,b)) return t;
  if (isC(b)&&a->op==E_ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkDivRem(op,a->b,b),mkDivRem(op,a->c,b));
  if (op==E_UDIV||op==E_UREM){
    // (x*k + r) / k with r<k, no overflow
    if (isC(b)){ Expr*s=a; while(s->op==E_ZEXT) s=s->a; u64 k=b->k; if (s->op==E_ADD&&s->a->hi+s->b->hi<=mask(s->w)&&s->a->hi<=mask(s->w)-s->b->hi){ for(int sw=0;sw<2;sw++){ Expr*p=sw?s->b:s->a,*r=sw?s->a:s->b; Expr*pm=p; while(pm->op==E_ZEXT) pm=pm->a; if (pm->op==E_MUL&&isC(pm->b)&&pm->b->k==k&&(unsigned __int128)pm->a->hi*k<=mask(pm->w)&&r->hi<k) return op==E_UDIV? mkZext(pm->a,a->w)->w==a->w? mkZext(pm->a,a->w):a : mkZext(r,a->w); } } }
    int nb=64-lz(std::max(a->hi,b->hi)); if (nb==0) nb=1; if (nb<a->w){ Expr*x=mkExtract(a,0,nb),*y=mkExtract(b,0,nb); return mkZext(fin(mk(op,nb,x,y)),a->w); }
  }
  return fin(mk(op,a->w,a,b));
}
Expr* mkAnd(Expr*a,Expr*b){
  if (isC(a)) std::swap(a,b);
  if (a==b) return a;
  if (isC(b)){ u64 m=mask(a->w); if (b->k==0) return b; if (b->k==m) return a; }
  if (a->w==1){ if ((a->op==E_NOT&&a->a==b)||(b->op==E_NOT&&b->a==a)) return F1();
    if (b->op==E_AND&&(b->a==a||b->b==a)) return b; if (a->op==E_AND&&(a->a==b||a->b==b)) return a; }
  BINPRE(E_AND)
  if (isC(b)){
    if (((~a->kz)&mask(a->w)&~b->k)==0) return a;
    if (a->op==E_AND&&isC(a->b)) return mkAnd(a->a,mkConst(a->b->k&b->k,a->w));
    // runs
    int runs=0; for(int i=0;i<a->w;i++) if((b->k>>i&1)&&!(i&&(b->k>>(i-1)&1))) runs++;
    if (runs<=4){ Expr*r=nullptr; int i=0; while(i<a->w){ bool t=b->k>>i&1; int j=i; while(j<a->w&&(bool)(b->k>>j&1)==t) j++; Expr*x= t? mkExtract(a,i,j-i): mkConst(0,j-i); r= r? mkConcat(x,r): x; i=j; } return r; }
  }
  if (((~a->kz)&(~b->kz))==0) return mkConst(0,a->w);
  if (a->w==1){ // small table merge
    Expr*X,*Y; std::vector<u64> va,vb; if (a->op!=E_AND&&b->op!=E_AND&&a->op!=E_VAR&&b->op!=E_VAR&&(a->op==E_EQ||a->op==E_ULT||a->op==E_NOT)&&(b->op==E_EQ||b->op==E_ULT||b->op==E_NOT)&&tabOf(a,X,va,4096)&&tabOf(b,Y,vb,4096)&&X==Y&&X!=a&&Y!=b){ for(size_t i=0;i<va.size();i++) va[i]&=vb[i]; return mkTab(X,std::move(va),1);} }
  if (!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(mk(E_AND,a->w,a,b));
}
Expr* mkOr(Expr*a,Expr*b){
  if (isC(a)) std::swap(a,b);
  if (a==b) return a;
  if (isC(b)){ if (b->k==0) return a; if (b->k==mask(a->w)) return b; }
  if (a->w==1) return mkNot(mkAnd(mkNot(a),mkNot(b)));
  BINPRE(E_OR)
  if (((~a->kz)&(~b->kz))==0){ if (Expr*r=orDisjoint(a,b)) return r; }
  if (!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(mk(E_OR,a->w,a,b));
}
// ---- affine forms over GF(2): makes parity and CRC computations cancel ------------
struct AffBit { u64 t[4]; bool c; int n() const { return __builtin_popcountll(t[0])+__builtin_popcountll(t[1])+__builtin_popcountll(t[2])+__builtin_popcountll(t[3]); } };
typedef std::vector<AffBit> Aff;
static std::unordered_map<Expr*,Aff*> g_aff;
static std::vector<int> g_affBase; static std::vector<std::pair<u32,int>> g_affVar; static std::unordered_map<u64,Expr*> g_affVarE;
static const Aff* affOf(Expr*e,int depth=0){
  auto it=g_aff.find(e); if (it!=g_aff.end()) return it->second;
  if (depth>200) return nullptr;
  Aff*r=new Aff(e->w,AffBit{{0,0,0,0},false}); bool ok=false;
  auto sub=[&](Expr*x){ return affOf(x,depth+1); };
  switch(e->op){
    case E_CONST: for(int i=0;i<e->w;i++) (*r)[i].c=e->k>>i&1; ok=true; break;
    case E_VAR: { if (g_affBase.size()<=e->k) g_affBase.resize(e->k+1,-1); int&b=g_affBase[e->k]; if (b<0){ if (g_affVar.size()+e->w>256) break; b=(int)g_affVar.size(); for(int i=0;i<e->w;i++) g_affVar.push_back({(u32)e->k,i}); g_affVarE[e->k]=e; } for(int i=0;i<e->w;i++) (*r)[i].t[(b+i)>>6]|=1ull<<((b+i)&63); ok=true; break; }
    case E_XOR: case E_OR: if (e->op==E_OR && ((~e->a->kz)&(~e->b->kz))) break; { const Aff*a=sub(e->a),*b=a? sub(e->b):nullptr; if (b){ for(int i=0;i<e->w;i++){ (*r)[i]=(*a)[i]; for(int q=0;q<4;q++) (*r)[i].t[q]^=(*b)[i].t[q]; (*r)[i].c^=(*b)[i].c; } ok=true; } } break;
    case E_AND: if (isC(e->b)) if (const Aff*a=sub(e->a)){ for(int i=0;i<e->w;i++) if (e->b->k>>i&1) (*r)[i]=(*a)[i]; ok=true; } break;
    case E_NOT: if (const Aff*a=sub(e->a)){ (*r)[0]=(*a)[0]; (*r)[0].c^=1; ok=true; } break;
    case E_CONCAT: { const Aff*a=sub(e->a),*b=a? sub(e->b):nullptr; if (b){ for(int i=0;i<e->b->w;i++) (*r)[i]=(*b)[i]; for(int i=0;i<e->a->w;i++) (*r)[e->b->w+i]=(*a)[i]; ok=true; } break; }
    case E_EXTRACT: if (const Aff*a=sub(e->a)){ for(int i=0;i<e->w;i++) (*r)[i]=(*a)[i+e->k]; ok=true; } break;
    case E_ZEXT: if (const Aff*a=sub(e->a)){ for(int i=0;i<e->a->w;i++) (*r)[i]=(*a)[i]; ok=true; } break;
    case E_SEXT: if (const Aff*a=sub(e->a)){ for(int i=0;i<e->w;i++) (*r)[i]=(*a)[std::min(i,e->a->w-1)]; ok=true; } break;
    case E_ITE: if (isC(e->b)&&isC(e->c)) if (const Aff*a=sub(e->a)){ for(int i=0;i<e->w;i++){ bool p=e->b->k>>i&1,q=e->c->k>>i&1; if (p!=q) (*r)[i]=(*a)[0]; (*r)[i].c= p!=q? ((*a)[0].c^q): p; } ok=true; } break;
    case E_TAB: if (e->a->w==1&&e->tab->v.size()==2) if (const Aff*a=sub(e->a)){ u64 Q=e->tab->v[0],P=e->tab->v[1]; for(int i=0;i<e->w;i++){ bool p=P>>i&1,q=Q>>i&1; if (p!=q) (*r)[i]=(*a)[0]; (*r)[i].c= p!=q? ((*a)[0].c^q): p; } ok=true; } break;
    default: break;
  }
  if (!ok){ delete r; r=nullptr; }
  g_aff[e]=r; return r;
}
// nullptr unless terms cancel
static Expr* affXor(Expr*a,Expr*b){
  if (a->w>32) return nullptr;
  const Aff*A=affOf(a),*B=A? affOf(b):nullptr; if (!B) return nullptr;
  Aff R(a->w); int na=0,nr=0; u64 k=0;
  for(int i=0;i<a->w;i++){ R[i]=(*A)[i]; for(int q=0;q<4;q++) R[i].t[q]^=(*B)[i].t[q]; R[i].c^=(*B)[i].c; na+=(*A)[i].n()+(*B)[i].n(); nr+=R[i].n(); if (R[i].c) k|=1ull<<i; }
  if (nr>=na) return nullptr;
  Expr*r=nullptr;
  for(int i=0;i<a->w;){
    int n=R[i].n(); Expr*x=nullptr; int len=1;
    auto only=[&](int j){ for(int q=0;q<4;q++) if (R[j].t[q]) return q*64+__builtin_ctzll(R[j].t[q]); return -1; };
    if (n==0){ while(i+len<a->w&&R[i+len].n()==0) len++; x=mkConst(0,len); }
    else if (n==1){ int v=only(i); while(i+len<a->w&&R[i+len].n()==1){ int u=only(i+len); if (u!=v+len||g_affVar[u].first!=g_affVar[v].first) break; len++; } x=mkExtract(g_affVarE[g_affVar[v].first],g_affVar[v].second,len); }
    else { for(int q=0;q<4;q++) for(u64 t=R[i].t[q];t;t&=t-1){ int v=q*64+__builtin_ctzll(t); Expr*y=mkExtract(g_affVarE[g_affVar[v].first],g_affVar[v].second,1); x= x? mk(E_XOR,1,x,y): y; } }
    r= r? mkConcat(x,r): x; i+=len;
  }
  if (k) r= r->w==1? mkNot(r): isC(r)? mkConst(r->k^k,r->w): fin(mk(E_XOR,r->w,r,mkConst(k,r->w)));
  return r;
}
Expr* mkXor(Expr*a,Expr*b){
  if (isC(a)) std::swap(a,b);
  if (a==b) return mkConst(0,a->w);
  if (isC(b)&&b->k==0) return a;
  if (a->w==1&&isC(b)) return mkNot(a);
  if (!isC(b)&&a->s.inter(b->s)) if (Expr*r=affXor(a,b)) return r;
  BINPRE(E_XOR)
  if (isC(b)&&a->op==E_XOR&&isC(a->b)) return mkXor(a->a,mkConst(a->b->k^b->k,a->w));
  if (!isC(b)){ if (a->op==E_XOR){ if(a->a==b) return a->b; if(a->b==b) return a->a; } if (b->op==E_XOR){ if(b->a==a) return b->b; if(b->b==a) return b->a; } }
  if (a->w==1&&a->op==E_NOT) return mkNot(mkXor(a->a,b)); if (a->w==1&&b->op==E_NOT) return mkNot(mkXor(a,b->a));
  if (((~a->kz)&(~b->kz))==0){ if (Expr*r=orDisjoint(a,b)) return r; }
  { // piecewise by segments where one side is zero
    std::vector<Seg> A,B; segs(a,0,A); segs(b,0,B); if ((A.size()>1||B.size()>1)&&A.size()<12&&B.size()<12){ Expr*r=nullptr; size_t i=0,j=0; int pos=0; bool useful=false; std::vector<std::pair<Expr*,Expr*>> ps; std::vector<int> ws; while(pos<a->w){ while(A[i].pos+A[i].w<=pos) i++; while(B[j].pos+B[j].w<=pos) j++; int end=std::min(A[i].pos+A[i].w,B[j].pos+B[j].w); Expr*x=A[i].e? mkExtract(A[i].e,pos-A[i].pos,end-pos):nullptr,*y=B[j].e? mkExtract(B[j].e,pos-B[j].pos,end-pos):nullptr; if(!x||!y) useful=true; ps.push_back({x,y}); ws.push_back(end-pos); pos=end; }
      if (useful&&ps.size()>1&&ps.size()<10){ for(size_t q=0;q<ps.size();q++){ Expr*x=ps[q].first,*y=ps[q].second; Expr*t= !x&&!y? mkConst(0,ws[q]): !x? y: !y? x: mkXor(x,y); r=r? mkConcat(t,r): t; } return r; } } }
  if (!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(mk(E_XOR,a->w,a,b));
}
Expr* mkNot(Expr*a){ if (isC(a)) return mkConst(a->k^1,1); if (a->op==E_NOT) return a->a; if (a->op==E_TAB){ std::vector<u64> v=a->tab->v; for(auto&x:v) x^=1; return mkTab(a->a,std::move(v),1);} return mk(E_NOT,1,a); }
Expr* mkShl(Expr*a,Expr*b){
  if (isC(b)){ if (b->k==0) return a; if (b->k>=a->w) return mkConst(0,a->w); if (isC(a)) return mkConst(a->k<<b->k,a->w); return mkConcat(mkExtract(a,0,a->w-(int)b->k),mkConst(0,(int)b->k)); }
  BINPRE(E_SHL)
  if (b->hi<64 && b->hi-b->lo<64){ Expr*r=nullptr; for(u64 i=b->lo;i<=b->hi;i++){ if((i&b->kz&mask(b->w))||(b->ko&~i)) continue; Expr*x=mkShl(a,mkConst(i,b->w)); r= r? mkIte(mkEq(b,mkConst(i,b->w)),x,r): x; } if(r) return r; }
  return fin(mk(E_SHL,a->w,a,b));
}
Expr* mkLshr(Expr*a,Expr*b){
  if (isC(b)){ if (b->k==0) return a; if (b->k>=a->w) return mkConst(0,a->w); if (isC(a)) return mkConst(a->k>>b->k,a->w); return mkZext(mkExtract(a,(int)b->k,a->w-(int)b->k),a->w); }
  BINPRE(E_LSHR)
  if (b->hi<64 && b->hi-b->lo<64){ Expr*r=nullptr; for(u64 i=b->lo;i<=b->hi;i++){ if((i&b->kz&mask(b->w))||(b->ko&~i)) continue; Expr*x=mkLshr(a,mkConst(i,b->w)); r= r? mkIte(mkEq(b,mkConst(i,b->w)),x,r): x; } if(r) return r; }
  return fin(mk(E_LSHR,a->w,a,b));
}
Expr* mkAshr(Expr*a,Expr*b){
  if (a->kz>>(a->w-1)&1) return mkLshr(a,b);
  if (isC(b)){ if (b->k==0) return a; int s=(int)std::min<u64>(b->k,a->w-1); if (isC(a)) return mkConst((u64)(sx(a->k,a->w)>>s),a->w); return mkSext(mkExtract(a,s,a->w-s),a->w); }
  BINPRE(E_ASHR)
  return fin(mk(E_ASHR,a->w,a,b));
}
Expr* mkEq(Expr*a,Expr*b){
  if (a==b) return T1();
  if (isC(a)) std::swap(a,b);
  if (isC(a)&&isC(b)) return mkConst(a->k==b->k,1);
  if ((a->ko&b->kz)||(b->ko&a->kz)||a->lo>b->hi||b->lo>a->hi) return F1();
  if (a->w==1) return isC(b)? (b->k? a: mkNot(a)) : mkNot(mkXor(a,b));
  if (tabLike(a)||tabLike(b)) if (Expr*t=tab2(E_EQ,1,a,b)) return t;
  if (isC(b)){
    switch(a->op){
      case E_ZEXT: return mkEq(a->a,mkConst(b->k,a->a->w));
      case E_SEXT: { u64 v=b->k&mask(a->a->w); if (((u64)sx(v,a->a->w)&mask(a->w))!=b->k) return F1(); return mkEq(a->a,mkConst(v,a->a->w)); }
      case E_CONCAT: return mkAnd(mkEq(a->a,mkConst(b->k>>a->b->w,a->a->w)),mkEq(a->b,mkConst(b->k,a->b->w)));
      case E_ADD: if(isC(a->b)) return mkEq(a->a,mkConst(b->k-a->b->k,a->w)); break;
      case E_SUB: if(isC(a->a)) return mkEq(a->b,mkConst(a->a->k-b->k,a->w)); break;
      case E_XOR: if(isC(a->b)) return mkEq(a->a,mkConst(b->k^a->b->k,a->w)); break;
      case E_ITE: if (isC(a->b)||isC(a->c)) { Expr*x=mkEq(a->b,b),*y=mkEq(a->c,b); return mkIte(a->a,x,y); } break;
      default: break;
    }
  } else {
    if (a->op==E_ZEXT&&b->op==E_ZEXT){ int m=std::max(a->a->w,b->a->w); return mkEq(mkZext(a->a,m),mkZext(b->a,m)); }
    if (a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkEq(a->a,b->a);
    if (a->op==E_CONCAT||b->op==E_CONCAT||a->op==E_ZEXT||b->op==E_ZEXT){ Expr*c= (a->op==E_CONCAT||(a->op==E_ZEXT&&b->op!=E_CONCAT))? a: b,*d= c==a? b: a; int bw= c->op==E_ZEXT? c->a->w: c->b->w; Expr*ch=mkExtract(c,bw,c->w-bw),*cl=mkExtract(c,0,bw),*dh=mkExtract(d,bw,c->w-bw),*dl=mkExtract(d,0,bw); if ((d->op==E_CONCAT||d->op==E_ZEXT||d->op==E_TAB)||dh->op!=E_EXTRACT||dl->op!=E_EXTRACT) return mkAnd(mkEq(ch,dh),mkEq(cl,dl)); }
    if (a->op==E_XOR&&b->op==E_XOR&&a->b==b->b) return mkEq(a->a,b->a);
    if (a->op==E_ADD&&b->op==E_ADD&&a->b==b->b) return mkEq(a->a,b->a);
    if (a->op==E_ITE&&b->op==E_ITE&&a->a==b->a) return mkIte(a->a,mkEq(a->b,b->b),mkEq(a->c,b->c));
    if (a->op==E_ITE&&(a->b==b||a->c==b)) return a->b==b? mkOr(a->a,mkEq(a->c,b)): mkOr(mkNot(a->a),mkEq(a->b,b));
    if (b->op==E_ITE&&(b->b==a||b->c==a)) return b->b==a? mkOr(b->a,mkEq(b->c,a)): mkOr(mkNot(b->a),mkEq(b->b,a));
  }
  if (!isC(b)&&a->id>b->id) std::swap(a,b);
  return mk(E_EQ,1,a,b);
}
Expr* mkUlt(Expr*a,Expr*b){
  if (a==b) return F1();
  if (isC(a)&&isC(b)) return mkConst(a->k<b->k,1);
  if (a->hi<b->lo) return T1(); if (a->lo>=b->hi) return F1();
  if (a->w==1) return mkAnd(mkNot(a),b);
  if (tabLike(a)||tabLike(b)) if (Expr*t=tab2(E_ULT,1,a,b)) return t;
  if (a->op==E_ZEXT&&b->op==E_ZEXT){ int m=std::max(a->a->w,b->a->w); return mkUlt(mkZext(a->a,m),mkZext(b->a,m)); }
  if (isC(b)){
    if (b->k==a->lo+1) return mkEq(a,mkConst(a->lo,a->w));
    if (b->k==a->hi) return mkNot(mkEq(a,b));
    if (a->op==E_ZEXT) return mkUlt(a->a,mkConst(b->k,a->a->w));
    if (a->op==E_ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkUlt(a->b,b),mkUlt(a->c,b));
    if (a->op==E_ADD&&isC(a->b)&&a->a->hi<=mask(a->w)-a->b->k){ if (b->k<=a->b->k) return F1(); return mkUlt(a->a,mkConst(b->k-a->b->k,a->w)); }
    if (a->op==E_CONCAT&&(b->k&mask(a->b->w))==0) return mkUlt(a->a,mkConst(b->k>>a->b->w,a->a->w));
  }
  if (isC(a)){
    if (a->k==b->lo) return mkNot(mkEq(b,a));
    if (b->hi==a->k+1) return mkEq(b,mkConst(b->hi,b->w));
    if (b->op==E_ZEXT) return mkUlt(mkConst(a->k,b->a->w),b->a);
    if (b->op==E_ITE&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkUlt(a,b->b),mkUlt(a,b->c));
    if (b->op==E_ADD&&isC(b->b)&&b->a->hi<=mask(b->w)-b->b->k){ if (a->k<b->b->k) return T1(); return mkUlt(mkConst(a->k-b->b->k,a->w),b->a); }
    // canonical: k < x  ==  !(x < k+1)
    return mkNot(mkUlt(b,mkConst(a->k+1,a->w)));
  }
  return mk(E_ULT,1,a,b);
}
Expr* mkSlt(Expr*a,Expr*b){
  if (a==b) return F1();
  if (isC(a)&&isC(b)) return mkConst(sx(a->k,a->w)<sx(b->k,b->w),1);
  u64 sb=1ull<<(a->w-1);
  bool az=a->kz&sb,ao=a->ko&sb,bz=b->kz&sb,bo=b->ko&sb;
  if (az&&bz) return mkUlt(a,b); if (ao&&bo) return mkUlt(a,b); if (az&&bo) return F1(); if (ao&&bz) return T1();
  if (tabLike(a)||tabLike(b)) if (Expr*t=tab2(E_SLT,1,a,b)) return t;
  if (isC(b)&&b->k==0) return mkExtract(a,a->w-1,1);
  if (isC(a)&&a->k==mask(a->w)) return mkNot(mkExtract(b,b->w-1,1));
  if (isC(b)&&a->op==E_ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkSlt(a->b,b),mkSlt(a->c,b));
  if (isC(a)&&b->op==E_ITE&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkSlt(a,b->b),mkSlt(a,b->c));
  if (isC(b)||isC(a)) { if (Expr*t=tab2(E_SLT,1,a,b)) return t; }
  if (isC(b)&&bz&&b->k==1) return mkOr(mkExtract(a,a->w-1,1),mkEq(a,mkConst(0,a->w)));
  return mk(E_SLT,1,a,b);
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if (isC(c)) return c->k? a: b;
  if (a==b) return a;
  if (c->op==E_NOT) return mkIte(c->a,b,a);
  if (a->w==1){
    if (isC(a)&&isC(b)) return a->k? c: mkNot(c);
    if (isC(a)) return a->k? mkOr(c,b): mkAnd(mkNot(c),b);
    if (isC(b)) return b->k? mkOr(mkNot(c),a): mkAnd(c,a);
    if (a==c) return mkOr(c,b); if (b==c) return mkAnd(c,a);
  }
  if (a->op==E_ITE&&a->a==c) return mkIte(c,a->b,b);
  if (b->op==E_ITE&&b->a==c) return mkIte(c,a,b->c);
  // pointwise when condition and arms are functions of the same core
  if (tabLike(a)||tabLike(b)||(isC(a)&&isC(b)&&tabLike(c))){
    Expr*X,*Y; std::vector<u64> vc,va,vb; bool ok=true;
    if (tabOf(c,X,vc)&&X!=c){
      if (isC(a)) va.assign(vc.size(),a->k); else ok=tabOf(a,Y,va)&&Y==X;
      if (ok){ if (isC(b)) vb.assign(vc.size(),b->k); else ok=tabOf(b,Y,vb)&&Y==X; }
      if (ok&&va.size()==vc.size()&&vb.size()==vc.size()){ for(size_t i=0;i<vc.size();i++) va[i]=vc[i]?va[i]:vb[i]; return mkTab(X,std::move(va),a->w); }
    }
  }
  if (a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkZext(mkIte(c,a->a,b->a),a->w);
  if (a->w>1){
    if (isC(a)&&isC(b)){ int nb=64-lz(a->k|b->k); if (nb<1) nb=1; if (nb<a->w) return mkZext(mkIte(c,mkConst(a->k,nb),mkConst(b->k,nb)),a->w); }
    else if (a->op==E_ZEXT&&isC(b)){ int nb=std::max<int>(a->a->w,64-lz(b->k)); if (nb<a->w) return mkZext(mkIte(c,mkZext(a->a,nb),mkConst(b->k,nb)),a->w); }
    else if (b->op==E_ZEXT&&isC(a)){ int nb=std::max<int>(b->a->w,64-lz(a->k)); if (nb<a->w) return mkZext(mkIte(c,mkConst(a->k,nb),mkZext(b->a,nb)),a->w); }
  }
  // ITE(c,x,ITE(d,x,y)) -> ITE(c|d,x,y)
  if (b->op==E_ITE&&b->b==a&&a->w>1) return mkIte(mkOr(c,b->a),a,b->c);
  return fin(mk(E_ITE,a->w,c,a,b));
}
// ---- floating point --------------------------------------------------------------
// FPINT(i, bound, s): the value i * 2^-s with |i| <= bound < 2^24 (exact); k = bound | s<<32
static bool asFpInt(Expr*e,Expr*&i,u64&bound,int&sc){
  if (e->op==E_FPINT){ i=e->a; bound=e->k&0xffffffffu; sc=(int)(e->k>>32); return true; }
  if (isC(e)){ double d=e->w==32?asF(e->k):asD(e->k); if (d==0&&std::signbit(d)) return false; for(sc=0;sc<=12;sc++){ double x=ldexp(d,sc); if (!(fabs(x)<16777216.0)) return false; if (x==floor(x)){ i=mkConst((u64)(i64)x,32); bound=(u64)fabs(x); return true; } } }
  return false;
}
static Expr* mkFpInt(Expr*i,u64 bound,int sc,int w){ u64 k=bound|(u64)sc<<32; if (isC(i)) return mkConst(evalOp(E_FPINT,w,32,k,i->k,0,0),w); return mk(E_FPINT,w,i,nullptr,nullptr,k); }
static Expr* normF(Expr*e){ // float-typed TAB with dyadic values -> FPINT
  if (e->op!=E_TAB) return e;
  for(int sc=0;sc<=12;sc++){ u64 mx=0; std::vector<u64> r; r.reserve(e->tab->v.size()); bool ok=true;
    for(u64 v:e->tab->v){ double d=e->w==32?asF(v):asD(v); double x=ldexp(d,sc); if((d==0&&std::signbit(d))||!(fabs(x)<16777216.0)) return e; if(x!=floor(x)){ ok=false; break; } mx=std::max(mx,(u64)fabs(x)); r.push_back((u64)(i64)x&mask(32)); }
    if (ok) return mkFpInt(mkTab(e->a,std::move(r),32),mx,sc,e->w); }
  return e;
}
static Expr* mkFBin(EOp op,Expr*a,Expr*b){
  bool cmp=op>=E_FEQ&&op<=E_FUNO; int w=cmp?1:a->w;
  if (isC(a)&&isC(b)) return mkConst(evalOp(op,w,a->w,0,a->k,b->k,0),w);
  Expr*i,*j; u64 B,C; int p,q; bool fi=asFpInt(a,i,B,p), fj=asFpInt(b,j,C,q); u64 lim= 1ull<<24;
  if (fi&&fj){
    if (op==E_FMUL&&B*C<lim&&p+q<=12&&i->hi<=B&&j->hi<=C) return mkFpInt(mkMul(i,j),B*C,p+q,w);
    if (p<q){ if ((B<<(q-p))<lim){ i=mkShl(i,mkConst(q-p,32)); B<<=q-p; p=q; } } else if (q<p){ if ((C<<(p-q))<lim){ j=mkShl(j,mkConst(p-q,32)); C<<=p-q; q=p; } }
    if (p==q){
      if (op==E_FADD&&B+C<lim) return mkFpInt(mkAdd(i,j),B+C,p,w);
      if (op==E_FSUB&&B+C<lim) return mkFpInt(mkSub(i,j),B+C,p,w);
      if (op==E_FEQ) return mkEq(i,j);
      if (op==E_FLT) return mkSlt(i,j);
      if (op==E_FLE) return mkNot(mkSlt(j,i));
    }
    if (op==E_FUNO) return F1();
  }
  if (Expr*t=tab2(op,w,a,b)) return cmp? t: normF(t);
  if (isC(b)&&a->op==E_ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkFBin(op,a->b,b),mkFBin(op,a->c,b));
  if (isC(a)&&b->op==E_ITE&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkFBin(op,a,b->b),mkFBin(op,a,b->c));
  return mk(op,w,a,b);
}
static Expr* mkFUn(EOp op,int w,Expr*a,u64 k=0){
  if (isC(a)) return mkConst(evalOp(op,w,a->w,k,a->k,0,0),w);
  if ((op==E_UITOFP||op==E_SITOFP)&&a->hi<(1u<<24)&&(op==E_UITOFP||(a->kz>>(a->w-1)&1))) return mkFpInt(a->w>=32? mkExtract(a,0,32): mkZext(a,32),a->hi,0,w);
  if (op==E_SITOFP){ // small signed
    if (a->w<=24) return mkFpInt(mkSext(a,32),1ull<<(a->w-1),0,w);
    if (a->op==E_SEXT&&a->a->w<=24) return mkFpInt(mkSext(a->a,32),1ull<<(a->a->w-1),0,w); }
  if ((op==E_FPTOSI||op==E_FPTOUI)&&a->op==E_FPINT&&!(a->k>>32)) return w<=32? mkExtract(a->a,0,w): mkSext(a->a,w);
  if (op==E_FPCVT&&a->op==E_FPINT) return mk(E_FPINT,w,a->a,nullptr,nullptr,a->k);
  if (op==E_FUN1&&a->op==E_FPINT&&!(a->k>>32)){ if (k==F1_LROUND||k==F1_LRINT) return w<=32? mkExtract(a->a,0,w): mkSext(a->a,w); if (k>=F1_FLOOR&&k<=F1_RINT) return a; }
  if (Expr*t=tab1(op,w,a,k)) return (op==E_FPTOSI||op==E_FPTOUI||(op==E_FUN1&&(k==F1_LROUND||k==F1_LRINT)))? t: normF(t);
  if (a->op==E_ITE) return mkIte(a->a,mkFUn(op,w,a->b,k),mkFUn(op,w,a->c,k));
  return mk(op,w,a,nullptr,nullptr,k);
}

// ---- evaluation under an assignment ---------------------------------------------------
static u64 g_stamp=1;
struct Model { std::vector<u64> v; u64 get(u64 i) const { return i<v.size()? v[i]: 0; } };
static u64 evalE(Expr*e,const Model&m,u64 st){
  if (isC(e)) return e->k;
  if (e->stamp==st) return e->val;
  u64 r;
  switch(e->op){
    case E_VAR: r=m.get(e->k)&mask(e->w); break;
    case E_ITE: r= evalE(e->a,m,st)? evalE(e->b,m,st): evalE(e->c,m,st); break;
    case E_CONCAT: r=evalE(e->a,m,st)<<e->b->w|evalE(e->b,m,st); break;
    case E_TAB: { u64 x=evalE(e->a,m,st); r=e->tab->v[x-e->a->lo]; break; }
    default: { u64 a=evalE(e->a,m,st), b=e->b? evalE(e->b,m,st):0; r=evalOp(e->op,e->w,e->a->w,e->k,a,b,0); }
  }
  e->stamp=st; e->val=r; return r;
}
static u64 evalE(Expr*e,const Model&m){ return evalE(e,m,++g_stamp); }

// ---- Z3 ----------------------------------------------------------------------------------
static Z3_context Z; 
static Z3_sort bvs(int w){ static Z3_sort s[65]; if(!s[w]) s[w]=Z3_mk_bv_sort(Z,w); return s[w]; }
static Z3_ast zb(Z3_ast b){ static Z3_ast one=nullptr,zero; if(!one){ one=Z3_mk_unsigned_int64(Z,1,bvs(1)); Z3_inc_ref(Z,one); zero=Z3_mk_unsigned_int64(Z,0,bvs(1)); Z3_inc_ref(Z,zero);} return Z3_mk_ite(Z,b,one,zero); }
static Z3_ast z1(Z3_ast v){ static Z3_ast one=nullptr; if(!one){ one=Z3_mk_unsigned_int64(Z,1,bvs(1)); Z3_inc_ref(Z,one);} return Z3_mk_eq(Z,v,one); }
static Z3_ast toZ(Expr*e);
static Z3_ast toB(Expr*e){ // as Bool
  if (e->op==E_NOT) return Z3_mk_not(Z,toB(e->a));
  if (e->op==E_EQ&&!(e->a->op>=E_FPINT)) return Z3_mk_eq(Z,toZ(e->a),toZ(e->b));
  if (e->op==E_ULT) return Z3_mk_bvult(Z,toZ(e->a),toZ(e->b));
  if (e->op==E_SLT) return Z3_mk_bvslt(Z,toZ(e->a),toZ(e->b));
  if (e->op==E_AND&&e->w==1){ Z3_ast x[2]={toB(e->a),toB(e->b)}; return Z3_mk_and(Z,2,x); }
  return z1(toZ(e));
}
static Z3_ast zc(u64 v,int w){ return Z3_mk_unsigned_int64(Z,v&mask(w),bvs(w)); }
static Z3_sort fps(int w){ static Z3_sort a,b; if(!a){ a=Z3_mk_fpa_sort_single(Z); b=Z3_mk_fpa_sort_double(Z);} return w==32?a:b; }
static Z3_ast toF(Expr*e){ return Z3_mk_fpa_to_fp_bv(Z,toZ(e),fps(e->w)); }
struct Piece { u64 lo; u64 v; bool aff; };
static Z3_ast tabTree(const std::vector<Piece>&p,size_t i,size_t j,Z3_ast X,Z3_ast Xw,int xw,int w){
  if (j-i==1){ if (!p[i].aff) return zc(p[i].v,w); Z3_ast args=Z3_mk_bvadd(Z,Xw,zc(p[i].v-p[i].lo,w)); return args; }
  size_t m=(i+j)/2; return Z3_mk_ite(Z,Z3_mk_bvult(Z,X,zc(p[m].lo,xw)),tabTree(p,i,m,X,Xw,xw,w),tabTree(p,m,j,X,Xw,xw,w));
}
static Z3_ast toZ(Expr*e){
  if (e->z) return e->z;
  Z3_ast r=nullptr;
  switch(e->op){
    case E_CONST: r=zc(e->k,e->w); break;
    case E_VAR: { char nm[32]; snprintf(nm,sizeof nm,"v%llu",(unsigned long long)e->k); r=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),bvs(e->w)); break; }
    case E_ADD: r=Z3_mk_bvadd(Z,toZ(e->a),toZ(e->b)); break; case E_SUB: r=Z3_mk_bvsub(Z,toZ(e->a),toZ(e->b)); break; case E_MUL: r=Z3_mk_bvmul(Z,toZ(e->a),toZ(e->b)); break;
    case E_UDIV: r=Z3_mk_bvudiv(Z,toZ(e->a),toZ(e->b)); break; case E_SDIV: r=Z3_mk_bvsdiv(Z,toZ(e->a),toZ(e->b)); break; case E_UREM: r=Z3_mk_bvurem(Z,toZ(e->a),toZ(e->b)); break; case E_SREM: r=Z3_mk_bvsrem(Z,toZ(e->a),toZ(e->b)); break;
    case E_AND: r=Z3_mk_bvand(Z,toZ(e->a),toZ(e->b)); break; case E_OR: r=Z3_mk_bvor(Z,toZ(e->a),toZ(e->b)); break; case E_XOR: r=Z3_mk_bvxor(Z,toZ(e->a),toZ(e->b)); break;
    case E_SHL: r=Z3_mk_bvshl(Z,toZ(e->a),toZ(e->b)); break; case E_LSHR: r=Z3_mk_bvlshr(Z,toZ(e->a),toZ(e->b)); break; case E_ASHR: r=Z3_mk_bvashr(Z,toZ(e->a),toZ(e->b)); break;
    case E_EQ: r=zb(Z3_mk_eq(Z,toZ(e->a),toZ(e->b))); break; case E_ULT: r=zb(Z3_mk_bvult(Z,toZ(e->a),toZ(e->b))); break; case E_SLT: r=zb(Z3_mk_bvslt(Z,toZ(e->a),toZ(e->b))); break;
    case E_NOT: r=Z3_mk_bvnot(Z,toZ(e->a)); break;
    case E_ITE: r=Z3_mk_ite(Z,toB(e->a),toZ(e->b),toZ(e->c)); break;
    case E_CONCAT: r=Z3_mk_concat(Z,toZ(e->a),toZ(e->b)); break;
    case E_EXTRACT: r=Z3_mk_extract(Z,(unsigned)(e->k+e->w-1),(unsigned)e->k,toZ(e->a)); break;
    case E_ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->a->w,toZ(e->a)); break; case E_SEXT: r=Z3_mk_sign_ext(Z,e->w-e->a->w,toZ(e->a)); break;
    case E_TAB: {
      Expr*X=e->a; const auto&v=e->tab->v; std::vector<Piece> p; size_t n=v.size();
      for(size_t i=0;i<n;){ size_t j=i+1; while(j<n&&v[j]==v[i]) j++; size_t k=i+1; while(k<n&&v[k]==((v[i]+(k-i))&mask(e->w))) k++; if (k-i>j-i&&k-i>2){ p.push_back({X->lo+i,v[i],true}); i=k; } else { p.push_back({X->lo+i,v[i],false}); i=j; } }
      Z3_ast x=toZ(X); Z3_ast xw= e->w==X->w? x: e->w>X->w? Z3_mk_zero_ext(Z,e->w-X->w,x): Z3_mk_extract(Z,e->w-1,0,x);
      r=tabTree(p,0,p.size(),x,xw,X->w,e->w); break; }
    case E_FPINT: { Z3_ast f=Z3_mk_fpa_to_fp_signed(Z,Z3_mk_fpa_rne(Z),toZ(e->a),fps(e->w)); if(e->k>>32) f=Z3_mk_fpa_mul(Z,Z3_mk_fpa_rne(Z),f,Z3_mk_fpa_to_fp_bv(Z,zc(e->w==32? frF(ldexpf(1,-(int)(e->k>>32))): frD(ldexp(1,-(int)(e->k>>32))),e->w),fps(e->w))); r=Z3_mk_fpa_to_ieee_bv(Z,f); break; }
    case E_FADD: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_add(Z,Z3_mk_fpa_rne(Z),toF(e->a),toF(e->b))); break; case E_FSUB: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_sub(Z,Z3_mk_fpa_rne(Z),toF(e->a),toF(e->b))); break;
    case E_FMUL: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_mul(Z,Z3_mk_fpa_rne(Z),toF(e->a),toF(e->b))); break; case E_FDIV: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_div(Z,Z3_mk_fpa_rne(Z),toF(e->a),toF(e->b))); break;
    case E_FEQ: r=zb(Z3_mk_fpa_eq(Z,toF(e->a),toF(e->b))); break; case E_FLT: r=zb(Z3_mk_fpa_lt(Z,toF(e->a),toF(e->b))); break; case E_FLE: r=zb(Z3_mk_fpa_leq(Z,toF(e->a),toF(e->b))); break;
    case E_FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(Z,toF(e->a)),Z3_mk_fpa_is_nan(Z,toF(e->b))}; r=zb(Z3_mk_or(Z,2,x)); break; }
    case E_SITOFP: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_to_fp_signed(Z,Z3_mk_fpa_rne(Z),toZ(e->a),fps(e->w))); break;
    case E_UITOFP: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_to_fp_unsigned(Z,Z3_mk_fpa_rne(Z),toZ(e->a),fps(e->w))); break;
    case E_FPTOSI: r=Z3_mk_fpa_to_sbv(Z,Z3_mk_fpa_rtz(Z),toF(e->a),e->w); break; case E_FPTOUI: r=Z3_mk_fpa_to_ubv(Z,Z3_mk_fpa_rtz(Z),toF(e->a),e->w); break;
    case E_FPCVT: r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_to_fp_float(Z,Z3_mk_fpa_rne(Z),toF(e->a),fps(e->w))); break;
    case E_FUN1: { Z3_ast f=toF(e->a);
      if (e->k==F1_LROUND||e->k==F1_LRINT) r=Z3_mk_fpa_to_sbv(Z,e->k==F1_LROUND? Z3_mk_fpa_rna(Z): Z3_mk_fpa_rne(Z),f,e->w);
      else if (e->k==F1_SQRT) r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_sqrt(Z,Z3_mk_fpa_rne(Z),f));
      else { Z3_ast rm= e->k==F1_FLOOR? Z3_mk_fpa_rtn(Z): e->k==F1_CEIL? Z3_mk_fpa_rtp(Z): e->k==F1_TRUNC? Z3_mk_fpa_rtz(Z): e->k==F1_ROUND? Z3_mk_fpa_rna(Z): Z3_mk_fpa_rne(Z); r=Z3_mk_fpa_to_ieee_bv(Z,Z3_mk_fpa_round_to_integral(Z,rm,f)); } break; }
  }
  Z3_inc_ref(Z,r); e->z=r; return r;
}
