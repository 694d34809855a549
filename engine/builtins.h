// Built-in models of compiler intrinsics, memory management, the C++ exception
// ABI and the harness interface.
#pragma once
#define BF(n) static bool n(Engine&E,const Ins&I,VV&a,VV&r)
static int aw(const Ins&I,int i){ return i<(int)I.args.size()? I.args[i].second: 64; }
static Val ptrAdd(const Val&p,u64 k){ return p.e? VE(mkAdd(p.e,mkConst(k,64))): VC(p.c+k); }
static u64 conc(Engine&E,const Val&v){ return v.e? E.concretize(v): v.c; }
BF(b_new){ u64 n=conc(E,a[0]); r.push_back(VC(E.alloc(n,K_HEAP))); return true; }
BF(b_malloc){ u64 n=conc(E,a[0]); r.push_back(VC(E.alloc(n,K_HEAP))); return true; }
BF(b_calloc){ u64 n=conc(E,a[0])*conc(E,a[1]); r.push_back(VC(E.alloc(n,K_HEAP,false))); return true; }
static void doFree(Engine&E,u64 p){ if(!p) return; u64 off; Obj*o=E.find(p,off); if(!o||o->kind!=K_HEAP||off!=0) E.error("memory","invalid free ("+E.descr(p)+")"); u32 s=(p>>24)&0xFFFFFF; E.dealloc(s); E.S->freel.push_back(s); }
BF(b_free){ u64 p=conc(E,a[0]); doFree(E,p); return true; }
BF(b_realloc){ u64 p=conc(E,a[0]),n=conc(E,a[1]); u64 q=E.alloc(n,K_HEAP); if(p){ u64 off; Obj*o=E.find(p,off); if(!o) E.error("memory","invalid realloc"); E.copyMem(q,p,std::min<u64>(n,o->size)); doFree(E,p); } r.push_back(VC(q)); return true; }
BF(b_memcpy){ u64 n=conc(E,a[2]); r.push_back(a[0]);
  if(!n) return true;
  if(!a[0].e&&!a[1].e){ E.copyMem(a[0].c,a[1].c,n); return true; }
  if(a[0].e){ Expr*X; vector<u64> v; if(n>64||!E.cands(a[0].e,X,v)||v.size()>300) { u64 d=E.concretize(a[0]); a[0]=VC(d); } }
  if(a[1].e){ Expr*X; vector<u64> v; if(n>256||!E.cands(a[1].e,X,v)) { u64 d=E.concretize(a[1]); a[1]=VC(d); } }
  if(!a[0].e&&!a[1].e){ E.copyMem(a[0].c,a[1].c,n); return true; }
  VV t; for(u64 i=0;i<n;i++) t.push_back(E.load(ptrAdd(a[1],i),1,8)); for(u64 i=0;i<n;i++) E.store(ptrAdd(a[0],i),1,8,t[i]); return true; }
BF(b_memset){ u64 n=conc(E,a[2]); r.push_back(a[0]); if(!n) return true; u64 d=conc(E,a[0]); Val v=a[1]; if(v.e&&v.e->w>8) v=VE(mkExtract(v.e,0,8)); else if(!v.e) v.c&=255;
  u64 off; Obj*o=E.find(d,off); if(!o||o->kind==K_FUNC||off>o->size||n>o->size-off) E.error("memory","out-of-bounds write (memset) at "+E.descr(d)); if(o->kind==K_CONST) E.error("memory","write to constant data"); o=E.S->W((d>>24)&0xFFFFFF);
  if(!v.e){ memset(o->d+off,(int)v.c,n); if(o->un) memset(o->un+off,0,n); if(o->nsym) for(u64 i=0;i<n;i++) if(o->s[off+i]){ o->s[off+i]=nullptr; o->nsym--; } } else for(u64 i=0;i<n;i++) E.setByteE(o,off+i,v.e); return true; }
static Val cmpMem(Engine&E,const Val&p,const Val&q,u64 n,bool ordered){
  VV x,y; for(u64 i=0;i<n;i++){ x.push_back(E.load(ptrAdd(p,i),1,8)); y.push_back(E.load(ptrAdd(q,i),1,8)); }
  if(!ordered){ Expr*all=T1(); for(u64 i=0;i<n;i++){ if(!x[i].e&&!y[i].e){ if(x[i].c!=y[i].c) return VC(1); continue; } all=mkAnd(all,mkEq(EX(x[i],8),EX(y[i],8))); if(isC(all)&&!all->k) return VC(1); } return VE(mkIte(all,mkConst(0,32),mkConst(1,32))); }
  Expr*res=mkConst(0,32); for(u64 j=n;j-->0;){ if(!x[j].e&&!y[j].e){ if(x[j].c!=y[j].c) res=mkConst(x[j].c<y[j].c? ~0ull:1,32); continue; } Expr*xe=EX(x[j],8),*ye=EX(y[j],8); res=mkIte(mkEq(xe,ye),res,mkIte(mkUlt(xe,ye),mkConst(~0ull,32),mkConst(1,32))); }
  return VE(res);
}
BF(b_memcmp){ u64 n=conc(E,a[2]); r.push_back(cmpMem(E,a[0],a[1],n,true)); return true; }
BF(b_bcmp){ u64 n=conc(E,a[2]); r.push_back(cmpMem(E,a[0],a[1],n,false)); return true; }
BF(b_strlen){ Val p=a[0]; if(p.e) p=VC(E.concretize(p)); u64 n=0; for(;;){ Val b=E.loadC(p.c+n,1,8); if(!b.e){ if(!b.c) break; } else { Expr*z=mkEq(b.e,mkConst(0,8)); if(E.concretize(VE(z))) break; } n++; } r.push_back(VC(n)); return true; }
BF(b_memchr){ u64 p=conc(E,a[0]); u64 n=conc(E,a[2]); Val c=a[1]; if(c.e) c=VE(mkExtract(c.e,0,8)); else c.c&=255; for(u64 i=0;i<n;i++){ Val b=E.loadC(p+i,1,8); if(!b.e&&!c.e){ if(b.c==c.c){ r.push_back(VC(p+i)); return true; } } else if(conc(E,VE(mkEq(EX(b,8),EX(c,8))))){ r.push_back(VC(p+i)); return true; } } r.push_back(VC(0)); return true; }
// ---- exceptions
BF(b_cxa_alloc){ r.push_back(VC(E.alloc(conc(E,a[0]),K_HEAP))); return true; }
BF(b_cxa_throw){ u64 obj=conc(E,a[0]),ti=conc(E,a[1]); E.S->excs[obj]={obj,ti}; E.unwind(obj,ti); throw Unwind(); }
BF(b_cxa_begin){ u64 o=conc(E,a[0]); E.S->caught.push_back(E.S->excs[o]); r.push_back(VC(o)); return true; }
BF(b_cxa_getptr){ r.push_back(a[0]); return true; }
BF(b_cxa_end){ if(E.S->caught.size()) E.S->caught.pop_back(); return true; }
BF(b_cxa_rethrow){ if(E.S->caught.empty()) E.error("exception","rethrow without exception"); Exc e=E.S->caught.back(); E.S->caught.pop_back(); E.unwind(e.obj,e.ti); throw Unwind(); }
BF(b_nop){ return true; }
BF(b_zero){ r.push_back(VC(0)); return true; }
BF(b_first){ r.push_back(a[0]); return true; }
BF(b_terminate){ E.error("terminate","std::terminate called"); }
BF(b_abort){ E.error("abort","abort called"); }
BF(b_trap){ E.error("ub","undefined behaviour trap"); }
BF(b_exit){ throw PathEnd{0}; }
BF(b_purevirt){ E.error("ub","pure virtual call"); }
BF(b_assert_fail){ E.error("assert","assertion failed: "+E.cstr(conc(E,a[0]))); }
BF(b_glibcxx_assert){ E.error("assert","libstdc++ assertion failed"); }
BF(b_guard_acq){ Val v=E.load(a[0],1,8); if(conc(E,v)) r.push_back(VC(0)); else r.push_back(VC(1)); return true; }
BF(b_guard_rel){ E.store(a[0],1,8,VC(1)); return true; }
BF(b_typeid_for){ u64 t=conc(E,a[0]); r.push_back(VC(E.typeids.emplace(t,(int)E.typeids.size()+1).first->second)); return true; }
BF(b_uncaught){ r.push_back(VC(0)); return true; }
// ---- intrinsics
static Val mm(const Val&x,const Val&y,int w,int k){ Expr*p=EX(x,w),*q=EX(y,w); switch(k){ case 0: return VE(mkIte(mkUlt(p,q),p,q)); case 1: return VE(mkIte(mkUlt(p,q),q,p)); case 2: return VE(mkIte(mkSlt(p,q),p,q)); default: return VE(mkIte(mkSlt(p,q),q,p)); } }
BF(b_umin){ r.push_back(mm(a[0],a[1],aw(I,0),0)); return true; } BF(b_umax){ r.push_back(mm(a[0],a[1],aw(I,0),1)); return true; } BF(b_smin){ r.push_back(mm(a[0],a[1],aw(I,0),2)); return true; } BF(b_smax){ r.push_back(mm(a[0],a[1],aw(I,0),3)); return true; }
BF(b_abs){ int w=aw(I,0); Expr*x=EX(a[0],w); r.push_back(VE(mkIte(mkExtract(x,w-1,1),mkSub(mkConst(0,w),x),x))); return true; }
static Val fsh(Engine&E,const Val&p,const Val&q,const Val&s,int w,bool left){ u64 k=conc(E,s)%w; Expr*x=EX(p,w),*y=EX(q,w); if(k==0) return VE(left? x: y); if(!left) k=w-k; return VE(mkOr(mkShl(x,mkConst(k,w)),mkLshr(y,mkConst(w-k,w)))); }
BF(b_fshl){ r.push_back(fsh(E,a[0],a[1],a[2],aw(I,0),true)); return true; } BF(b_fshr){ r.push_back(fsh(E,a[0],a[1],a[2],aw(I,0),false)); return true; }
BF(b_ctpop){ int w=aw(I,0); if(!a[0].e){ r.push_back(VC(__builtin_popcountll(a[0].c))); return true; } if(tabLike(a[0].e)){ Expr*X; vector<u64> v; if(tabOf(a[0].e,X,v)){ for(auto&x:v) x=__builtin_popcountll(x); r.push_back(VE(mkTab(X,std::move(v),w))); return true; } } Expr*s=mkConst(0,w); for(int i=0;i<w;i++) s=mkAdd(s,mkZext(mkExtract(a[0].e,i,1),w)); r.push_back(VE(s)); return true; }
BF(b_ctlz){ int w=aw(I,0); if(!a[0].e){ r.push_back(VC(a[0].c? __builtin_clzll(a[0].c)-(64-w): w)); return true; } Expr*s=mkConst(w,w); for(int i=0;i<w;i++) s=mkIte(mkExtract(a[0].e,i,1),mkConst(w-1-i,w),s); r.push_back(VE(s)); return true; }
BF(b_cttz){ int w=aw(I,0); if(!a[0].e){ r.push_back(VC(a[0].c? __builtin_ctzll(a[0].c): w)); return true; } Expr*s=mkConst(w,w); for(int i=w-1;i>=0;i--) s=mkIte(mkExtract(a[0].e,i,1),mkConst(i,w),s); r.push_back(VE(s)); return true; }
BF(b_bswap){ int w=aw(I,0); Expr*x=EX(a[0],w); Expr*s=nullptr; for(int i=0;i<w;i+=8){ Expr*b=mkExtract(x,i,8); s= s? mkConcat(s,b): b; } r.push_back(VE(s)); return true; }
BF(b_bitrev){ int w=aw(I,0); Expr*x=EX(a[0],w); Expr*s=nullptr; for(int i=0;i<w;i++){ Expr*b=mkExtract(x,i,1); s= s? mkConcat(s,b): b; } r.push_back(VE(s)); return true; }
BF(b_usubsat){ int w=aw(I,0); Expr*x=EX(a[0],w),*y=EX(a[1],w); r.push_back(VE(mkIte(mkUlt(x,y),mkConst(0,w),mkSub(x,y)))); return true; }
BF(b_uaddsat){ int w=aw(I,0); Expr*x=EX(a[0],w),*y=EX(a[1],w); Expr*s=mkAdd(x,y); r.push_back(VE(mkIte(mkUlt(s,x),mkConst(~0ull,w),s))); return true; }
static void ovf(Engine&E,const Ins&I,VV&a,VV&r,int op,bool sg){ int w=aw(I,0); Expr*x=EX(a[0],w),*y=EX(a[1],w); Expr*res= op==0? mkAdd(x,y): op==1? mkSub(x,y): mkMul(x,y); Expr*o;
  if(w<=32){ int W=w*2; Expr*X= sg? mkSext(x,W): mkZext(x,W),*Y= sg? mkSext(y,W): mkZext(y,W); Expr*wide= op==0? mkAdd(X,Y): op==1? mkSub(X,Y): mkMul(X,Y); o=mkNot(mkEq(wide, sg? mkSext(res,W): mkZext(res,W))); }
  else if(!a[0].e&&!a[1].e){ bool b; i64 s; u64 u; if(sg) b= op==0? __builtin_add_overflow((i64)a[0].c,(i64)a[1].c,&s): op==1? __builtin_sub_overflow((i64)a[0].c,(i64)a[1].c,&s): __builtin_mul_overflow((i64)a[0].c,(i64)a[1].c,&s); else b= op==0? __builtin_add_overflow(a[0].c,a[1].c,&u): op==1? __builtin_sub_overflow(a[0].c,a[1].c,&u): __builtin_mul_overflow(a[0].c,a[1].c,&u); o=mkConst(b,1); }
  else if(op==0&&!sg) o=mkUlt(res,x); else if(op==1&&!sg) o=mkUlt(x,y);
  else if(op==2&&!sg){ if((unsigned __int128)x->hi*y->hi<=~0ull) o=F1(); else if(w==64&&!a[1].e&&a[1].c) o=mkUlt(mkConst(~0ull/a[1].c,64),x); else if(w==64&&!a[0].e&&a[0].c) o=mkUlt(mkConst(~0ull/a[0].c,64),y); else E.unsupported("64-bit mul overflow"); }
  else if(sg&&op<2){ Expr*sxx=mkExtract(x,w-1,1),*sy=mkExtract(y,w-1,1),*sr=mkExtract(res,w-1,1); if(op==1) sy=mkNot(sy); o=mkAnd(mkEq(sxx,sy),mkNot(mkEq(sxx,sr))); }
  else { if(x->hi<(1ull<<31)&&y->hi<(1ull<<31)) o=F1(); else E.unsupported("64-bit mul overflow"); }
  r.push_back(VE(res)); r.push_back(VE(o)); }
BF(b_uaddo){ ovf(E,I,a,r,0,false); return true; } BF(b_usubo){ ovf(E,I,a,r,1,false); return true; } BF(b_umulo){ ovf(E,I,a,r,2,false); return true; } BF(b_saddo){ ovf(E,I,a,r,0,true); return true; } BF(b_ssubo){ ovf(E,I,a,r,1,true); return true; } BF(b_smulo){ ovf(E,I,a,r,2,true); return true; }
template<int K,int RW> static bool b_f1(Engine&E,const Ins&I,VV&a,VV&r){ int w=aw(I,0); int rw= RW? RW: w; Val x=a[0]; if(!x.e) r.push_back(VC(evalOp(E_FUN1,rw,w,K,x.c,0,0))); else r.push_back(VE(mkFUn(E_FUN1,rw,x.e,K))); return true; }
BF(b_fabs){ int w=aw(I,0); u64 m=mask(w-1); if(a[0].e&&a[0].e->op==E_FPINT&&a[0].e->a->hi<=(a[0].e->k&0xffffffffu)){ r.push_back(a[0]); return true; } if(a[0].e){ if(Expr*t=tab1(E_FUN1,w,a[0].e,F1_FABS)){ r.push_back(VE(normF(t))); return true; } } r.push_back(!a[0].e? VC(a[0].c&m): VE(mkAnd(a[0].e,mkConst(m,w)))); return true; }
template<double(*F)(double,double)> static bool b_f2(Engine&E,const Ins&I,VV&a,VV&r){ int w=aw(I,0); u64 x=conc(E,a[0]),y=conc(E,a[1]); if(w==32) r.push_back(VC(frF((float)F(asF(x),asF(y))))); else r.push_back(VC(frD(F(asD(x),asD(y))))); return true; }
BF(b_fmuladd){ int w=aw(I,0); Expr*m=mkFBin(E_FMUL,EX(a[0],w),EX(a[1],w)); r.push_back(VE(mkFBin(E_FADD,m,EX(a[2],w)))); return true; }
BF(b_fminmax){ int w=aw(I,0); Expr*x=EX(a[0],w),*y=EX(a[1],w); bool mn=I.callee&&I.callee->name.find("min")!=string::npos; Expr*lt=mkFBin(E_FLT,mn?x:y,mn?y:x); r.push_back(VE(mkIte(lt,x,mkIte(mkFBin(E_FUNO,y,y),x,y)))); return true; }
BF(b_vastart){ u64 p=conc(E,a[0]); Frame&fr=E.S->fr.back(); E.storeC(p,4,32,VC(48)); E.storeC(p+4,4,32,VC(176)); E.storeC(p+8,8,64,VC(fr.va)); E.storeC(p+16,8,64,VC(0)); return true; }
BF(b_vacopy){ E.copyMem(conc(E,a[0]),conc(E,a[1]),24); return true; }
BF(b_loadrel){ u64 p=conc(E,a[0]),o=conc(E,a[1]); Val v=E.load(VC(p+o),4,32); r.push_back(VC(p+(u64)sx(conc(E,v),32))); return true; }
BF(b_objsize){ r.push_back(VC(~0ull)); return true; }
BF(b_isconst){ r.push_back(VC(0)); return true; }
BF(b_fpclass){ E.unsupported("is.fpclass"); }
// ---- harness interface
static string argName(Engine&E,const Val&v){ return E.cstr(conc(E,v)); }
BF(b_var){ string nm=argName(E,a[0]); int bits=(int)conc(E,a[1]); Expr*e; 
  // variables are identified by (creation index, name, width) so that all paths share them
  char key[32]; snprintf(key,32,"#%zu:%d",E.S->inputs.size(),bits); static std::map<string,Expr*> memo; string k=nm+key; auto it=memo.find(k); if(it==memo.end()){ e=mkVar(nm,bits,0); memo[k]=e; } else e=it->second;
  E.S->inputs.push_back({nm,e,0,bits}); if(E.S->model.v.size()<g_vars.size()) E.S->model.v.resize(g_vars.size(),0); r.push_back(VE(mkZext(e,64))); return true; }
BF(b_choose){ // concrete choice in [0,n): forks
  string nm=argName(E,a[0]); u64 n=conc(E,a[1]); if(n==0) throw PathEnd{2};
  for(u64 i=n-1;i>0;i--){ State*s=new State(*E.S); E.forks++; s->inputs.push_back({nm,nullptr,i,64}); Frame&fr=s->fr.back(); const Ins&ci=fr.f->code[fr.pc]; if(ci.nret) s->stk[fr.base+ci.dst]=VC(i); State*o=E.S; E.S=s; if(ci.invoke) E.doEdge(ci.e1); else fr.pc++; E.S=o; E.push(s); }
  E.S->inputs.push_back({nm,nullptr,0,64}); r.push_back(VC(0)); return true; }
BF(b_assume){ Val c=a[0]; if(!c.e){ if(!(c.c&1)) throw PathEnd{2}; return true; } Expr*e= c.e->w==1? c.e: mkNot(mkEq(c.e,mkConst(0,c.e->w))); if(isC(e)){ if(!e->k) throw PathEnd{2}; return true; } Model m; if(evalE(e,E.S->model)) m=E.S->model; else { int q=E.check(e,&m); if(q==0) throw PathEnd{2}; if(q<0) E.unsupported("solver unknown: assume"); } E.S->model=m; E.addPC(e); return true; }
BF(b_assert){ Val c=a[0]; E.asserts++; string msg=argName(E,a[1]); if(!c.e){ if(!c.c) E.error("property",msg); E.assertsTriv++; return true; } Expr*e= c.e->w==1? c.e: mkNot(mkEq(c.e,mkConst(0,c.e->w))); if(isC(e)){ if(!e->k) E.error("property",msg); E.assertsTriv++; return true; } E.mustNot(mkNot(e),"property",msg); return true; }
BF(b_reached){ E.S->reached[argName(E,a[0])]++; return true; }
BF(b_note){ E.S->notes.push_back({argName(E,a[0]),a[1]}); if(E.verbose){ if(a[1].e) fprintf(stderr,"note %s = <sym> [%llx,%llx]\n",E.S->notes.back().first.c_str(),(unsigned long long)a[1].e->lo,(unsigned long long)a[1].e->hi); else fprintf(stderr,"note %s = %llx\n",E.S->notes.back().first.c_str(),(unsigned long long)a[1].c); } return true; }
BF(b_umaxv){ r.push_back(a[0].e? VC(a[0].e->hi): a[0]); return true; }
BF(b_issym){ r.push_back(VC(a[0].e?1:0)); return true; }
BF(b_same){ r.push_back(VC(a[0].e? a[0].e==a[1].e: (!a[1].e&&a[0].c==a[1].c))); return true; }
BF(b_concretize){ r.push_back(VC(conc(E,a[0]))); return true; }
BF(b_end){ throw PathEnd{0}; }
BF(b_param){ string n=argName(E,a[0]); auto it=E.params.find(n); r.push_back(it==E.params.end()? a[1]: VC(strtoull(it->second.c_str(),0,0))); return true; }
BF(b_fmtdouble){ u64 buf=conc(E,a[0]); int cap=(int)conc(E,a[1]); double v=asD(conc(E,a[2])); int prec=(int)conc(E,a[3]),mode=(int)conc(E,a[4]); char t[600]; int n=snprintf(t,600,mode==1?"%.*f":mode==2?"%.*e":"%.*g",prec,v); if(n>=cap) n=cap-1; for(int i=0;i<=n;i++) E.storeC(buf+i,1,8,VC((u8)(i<n?t[i]:0))); r.push_back(VC(n)); return true; }
BF(b_strtod){ string s; u64 p=conc(E,a[0]); u64 q=p; for(;;){ Val b=E.loadC(q++,1,8); u64 c=conc(E,b); if(!c) break; s+=(char)c; } char*e; double d=strtod(s.c_str(),&e); u64 ep=conc(E,a[1]); if(ep) E.storeC(ep,8,64,VC(p+(e-s.c_str()))); r.push_back(VC(frD(d))); return true; }
BF(b_strtof){ VV q; b_strtod(E,I,a,q); string s; u64 p=conc(E,a[0]); s=E.cstr(p); r.push_back(VC(frF(strtof(s.c_str(),nullptr)))); return true; }
BF(b_dyncast){ // __dynamic_cast(ptr, src, dst, hint): supports single inheritance objects at offset 0
  u64 p=conc(E,a[0]); if(!p){ r.push_back(VC(0)); return true; } u64 vt=conc(E,E.load(VC(p),8,64)); u64 ti=conc(E,E.load(VC(vt-8),8,64)); i64 top=(i64)conc(E,E.load(VC(vt-16),8,64)); u64 adj=0; if(E.tiMatch(ti,conc(E,a[2]),adj)) r.push_back(VC(p+top+adj)); else r.push_back(VC(0)); return true; }
static void registerBuiltins(Engine&E){
  auto&B=E.bis;
  for(const char*n:{"_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","_ZnwmSt11align_val_t"}) B[n]=b_new;
  for(const char*n:{"_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdlPvRKSt9nothrow_t","free","cfree"}) B[n]=b_free;
  B["malloc"]=b_malloc; B["calloc"]=b_calloc; B["realloc"]=b_realloc; B["memcpy"]=b_memcpy; B["memmove"]=b_memcpy; B["memset"]=b_memset; B["memcmp"]=b_memcmp; B["bcmp"]=b_bcmp; B["strlen"]=b_strlen; B["memchr"]=b_memchr;
  B["__cxa_allocate_exception"]=b_cxa_alloc; B["__cxa_free_exception"]=b_nop; B["__cxa_throw"]=b_cxa_throw; B["__cxa_begin_catch"]=b_cxa_begin; B["__cxa_end_catch"]=b_cxa_end; B["__cxa_rethrow"]=b_cxa_rethrow; B["__cxa_get_exception_ptr"]=b_cxa_getptr; B["__cxa_atexit"]=b_zero; B["__cxa_thread_atexit"]=b_zero; B["atexit"]=b_zero; B["__cxa_guard_acquire"]=b_guard_acq; B["__cxa_guard_release"]=b_guard_rel; B["__cxa_guard_abort"]=b_nop; B["__cxa_pure_virtual"]=b_purevirt; B["__cxa_call_unexpected"]=b_terminate; B["__dynamic_cast"]=b_dyncast; B["_ZSt18uncaught_exceptionv"]=b_uncaught; B["_ZSt19uncaught_exceptionsv"]=b_uncaught;
  B["_ZSt9terminatev"]=b_terminate; B["abort"]=b_abort; B["__assert_fail"]=b_assert_fail; B["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=b_glibcxx_assert; B["exit"]=b_exit; B["_exit"]=b_exit; B["__gxx_personality_v0"]=b_nop;
  B["symx_var"]=b_var; B["symx_choose"]=b_choose; B["symx_assume"]=b_assume; B["symx_assert"]=b_assert; B["symx_reached"]=b_reached; B["symx_note"]=b_note; B["symx_umax"]=b_umaxv; B["symx_is_symbolic"]=b_issym; B["symx_same"]=b_same; B["symx_concretize"]=b_concretize; B["symx_end"]=b_end; B["symx_param"]=b_param; B["symx_fmt_double"]=b_fmtdouble; B["strtod"]=b_strtod; B["strtof"]=b_strtof;
  B["floor"]=b_f1<F1_FLOOR,0>; B["floorf"]=b_f1<F1_FLOOR,0>; B["ceil"]=b_f1<F1_CEIL,0>; B["ceilf"]=b_f1<F1_CEIL,0>; B["trunc"]=b_f1<F1_TRUNC,0>; B["truncf"]=b_f1<F1_TRUNC,0>; B["round"]=b_f1<F1_ROUND,0>; B["roundf"]=b_f1<F1_ROUND,0>; B["rint"]=b_f1<F1_RINT,0>; B["rintf"]=b_f1<F1_RINT,0>; B["nearbyint"]=b_f1<F1_RINT,0>; B["nearbyintf"]=b_f1<F1_RINT,0>; B["sqrt"]=b_f1<F1_SQRT,0>; B["sqrtf"]=b_f1<F1_SQRT,0>;
  for(const char*n:{"lround","lroundf","llround","llroundf"}) B[n]=b_f1<F1_LROUND,64>; for(const char*n:{"lrint","lrintf","llrint","llrintf"}) B[n]=b_f1<F1_LRINT,64>;
  B["fabs"]=b_fabs; B["fabsf"]=b_fabs; B["pow"]=b_f2<pow>; B["powf"]=b_f2<pow>; B["fmod"]=b_f2<fmod>; B["atan2"]=b_f2<atan2>; B["hypot"]=b_f2<hypot>; B["fmin"]=b_fminmax; B["fmax"]=b_fminmax; B["fminf"]=b_fminmax; B["fmaxf"]=b_fminmax;
  B["sin"]=b_f1<F1_SIN,0>; B["sinf"]=b_f1<F1_SIN,0>; B["cos"]=b_f1<F1_COS,0>; B["cosf"]=b_f1<F1_COS,0>; B["exp"]=b_f1<F1_EXP,0>; B["expf"]=b_f1<F1_EXP,0>; B["log"]=b_f1<F1_LOG,0>; B["logf"]=b_f1<F1_LOG,0>; B["log10"]=b_f1<F1_LOG10,0>; B["log10f"]=b_f1<F1_LOG10,0>; B["log2"]=b_f1<F1_LOG2,0>; B["log2f"]=b_f1<F1_LOG2,0>;
  static const std::pair<const char*,BI> pre[]={ {"llvm.memcpy.",b_memcpy},{"llvm.memmove.",b_memcpy},{"llvm.memset.",b_memset},{"llvm.umin.",b_umin},{"llvm.umax.",b_umax},{"llvm.smin.",b_smin},{"llvm.smax.",b_smax},{"llvm.abs.",b_abs},{"llvm.fshl.",b_fshl},{"llvm.fshr.",b_fshr},{"llvm.ctpop.",b_ctpop},{"llvm.ctlz.",b_ctlz},{"llvm.cttz.",b_cttz},{"llvm.bswap.",b_bswap},{"llvm.bitreverse.",b_bitrev},{"llvm.usub.sat.",b_usubsat},{"llvm.uadd.sat.",b_uaddsat},{"llvm.uadd.with.overflow.",b_uaddo},{"llvm.usub.with.overflow.",b_usubo},{"llvm.umul.with.overflow.",b_umulo},{"llvm.sadd.with.overflow.",b_saddo},{"llvm.ssub.with.overflow.",b_ssubo},{"llvm.smul.with.overflow.",b_smulo},{"llvm.floor.",b_f1<F1_FLOOR,0>},{"llvm.ceil.",b_f1<F1_CEIL,0>},{"llvm.trunc.",b_f1<F1_TRUNC,0>},{"llvm.round.",b_f1<F1_ROUND,0>},{"llvm.rint.",b_f1<F1_RINT,0>},{"llvm.nearbyint.",b_f1<F1_RINT,0>},{"llvm.sqrt.",b_f1<F1_SQRT,0>},{"llvm.lround.i64",b_f1<F1_LROUND,64>},{"llvm.lround.i32",b_f1<F1_LROUND,32>},{"llvm.llround.",b_f1<F1_LROUND,64>},{"llvm.lrint.i64",b_f1<F1_LRINT,64>},{"llvm.fabs.",b_fabs},{"llvm.sin.",b_f1<F1_SIN,0>},{"llvm.cos.",b_f1<F1_COS,0>},{"llvm.exp.",b_f1<F1_EXP,0>},{"llvm.log.",b_f1<F1_LOG,0>},{"llvm.log10.",b_f1<F1_LOG10,0>},{"llvm.log2.",b_f1<F1_LOG2,0>},{"llvm.pow.",b_f2<pow>},{"llvm.fmuladd.",b_fmuladd},{"llvm.minnum.",b_fminmax},{"llvm.maxnum.",b_fminmax},{"llvm.va_start",b_vastart},{"llvm.va_copy",b_vacopy},{"llvm.trap",b_trap},{"llvm.ubsantrap",b_trap},{"llvm.debugtrap",b_trap},{"llvm.load.relative.",b_loadrel},{"llvm.eh.typeid.for",b_typeid_for},{"llvm.expect.",b_first},{"llvm.objectsize.",b_objsize},{"llvm.is.constant.",b_isconst},{"llvm.launder.invariant.group",b_first},{"llvm.strip.invariant.group",b_first},{"llvm.stacksave",b_zero},{"llvm.ptrmask",b_first},{"llvm.threadlocal.address",b_first},{"llvm.is.fpclass",b_fpclass} };
  for(auto&F:*E.M) if(F.getName().startswith("llvm.")) for(auto&p:pre) if(F.getName().startswith(p.first)) B[F.getName().str()]=p.second;
}
