// symx: symbolic executor for LLVM-18 bitcode. Paths are explored exhaustively
// within the harness' bounds; every branch and assertion on symbolic data is
// decided by Z3.
#include <memory>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/time.h>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <cxxabi.h>
#define L llvm
using std::string; using std::vector;

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Val { Expr* e; u64 c; };
static inline Val VC(u64 c){ return Val{nullptr,c}; }
static inline Val VE(Expr*e){ if (e->op==E_CONST) return Val{nullptr,e->k}; return Val{e,0}; }
static inline Expr* EX(const Val&v,int w){ return v.e? v.e: mkConst(v.c,w); }

// ---------------------------------------------------------------- program
enum Op : u16 { O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_CAST, O_FCAST, O_MOVE, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_EXTRACTV, O_INSERTV, O_LPAD, O_RESUME, O_ARMW, O_CMPXCHG, O_VAARG, O_NOP, O_LOADAGG, O_STOREAGG, O_UNSUP };
struct Edge { u32 target; u32 mv, nmv; };
struct Mv { int dst, src; u8 w=0; };
struct Fn; 
struct GepIdx { int op; u64 scale; int w; };
struct LPClause { bool isFilter; vector<u64> tis; };
struct Sc { int off; int bytes; int w; bool isbool; };
struct Ins {
  Op op; u16 sub; u8 w, w2; int dst, a, b, c; 
  Edge e1, e2; u64 k;
  vector<GepIdx> gi; vector<std::pair<u64,Edge>> cases; 
  vector<std::pair<int,int>> args; Fn* callee; int nret; bool invoke;
  vector<LPClause> lp; bool cleanup; vector<Sc> sc; vector<int> retw;
  const L::Instruction* I; string s;
};
typedef bool (*BI)(struct Engine&, const Ins&, vector<Val>&, vector<Val>& ret);
struct Fn { string name; L::Function* F; bool defined=false, compiled=false; int nregs=0; int nargs=0; vector<Ins> code; vector<Mv> mvs; u64 addr=0; BI bi=nullptr; bool vararg=false; u64 hits=0; };

// ---------------------------------------------------------------- memory
enum { K_FREE, K_HEAP, K_STACK, K_GLOBAL, K_CONST, K_FUNC };
struct Obj { u32 rc; u32 size; u16 gen; u8 kind; u8 del; u8* d; u8* un; Expr** s; u32 nsym; Fn* fn; const char* nm; };
struct Chunk { u32 rc; Obj* o[64]; };
static const u64 OFFB=0x100000;
static inline u64 mkaddr(u32 slot,u16 gen,u64 off=0){ return ((u64)gen<<48)|((u64)slot<<24)|((OFFB+off)&0xFFFFFF); }
static void objFree(Obj*o){ if(--o->rc==0){ free(o->d); free(o->s); free(o); } }
static Obj* objClone(Obj*o){ Obj*n=(Obj*)malloc(sizeof(Obj)); *n=*o; n->rc=1; if (o->d){ size_t sz=o->un? (size_t)o->size*2: o->size; n->d=(u8*)malloc(sz?sz:1); memcpy(n->d,o->d,sz); if(o->un) n->un=n->d+o->size; } if(o->s){ n->s=(Expr**)malloc(sizeof(Expr*)*(o->size?o->size:1)); memcpy(n->s,o->s,sizeof(Expr*)*o->size);} return n; }

struct Frame { Fn* f; u32 pc; u32 base; u32 callpc; vector<u32> allocs; u64 va; };
struct Exc { u64 obj; u64 ti; };
struct InRec { string name; Expr* e; u64 c; int w; };
struct State {
  vector<Frame> fr; vector<Val> stk; vector<Chunk*> ch; u32 nslots=0; vector<u32> freel; 
  vector<Expr*> pc; Model model; vector<InRec> inputs; vector<Exc> caught; Exc cur{0,0};
  u64 steps=0; int depth=0; std::map<string,u64> reached; vector<std::pair<string,Val>> notes; std::unordered_map<u64,Exc> excs;
  std::deque<u32> quarantine; size_t nun=0; vector<std::pair<Expr*,std::shared_ptr<vector<u8>>>> dom;
  vector<u8>* domOf(Expr*X){ for(auto&p:dom) if(p.first==X) return p.second.get(); return nullptr; }
  State(){}
  State(const State&o):fr(o.fr),stk(o.stk),ch(o.ch),nslots(o.nslots),freel(o.freel),pc(o.pc),model(o.model),inputs(o.inputs),caught(o.caught),cur(o.cur),steps(o.steps),depth(o.depth),reached(o.reached),notes(o.notes),excs(o.excs),quarantine(o.quarantine),nun(o.nun),dom(o.dom){ for(auto c:ch) c->rc++; }
  ~State(){ for(auto c:ch) if(--c->rc==0){ for(auto o:c->o) if(o) objFree(o); free(c);} }
  State& operator=(const State&)=delete;
  Obj* R(u32 slot){ return ch[slot>>6]->o[slot&63]; }
  Chunk* WC(u32 i){ Chunk*c=ch[i]; if(c->rc>1){ Chunk*n=(Chunk*)malloc(sizeof(Chunk)); *n=*c; n->rc=1; for(auto o:n->o) if(o) o->rc++; c->rc--; ch[i]=n; c=n; } return c; }
  Obj* W(u32 slot){ Chunk*c=WC(slot>>6); Obj*o=c->o[slot&63]; if(o->rc>1){ Obj*n=objClone(o); o->rc--; c->o[slot&63]=n; o=n; } return o; }
};
struct PathEnd { int why; };  // 0 normal 1 error 2 infeasible 3 unsupported
struct Unwind {};

struct ErrRec { string kind,msg,where; vector<InRec> inputs; vector<u64> vals; vector<std::pair<string,u64>> notes; bool uninit; };
struct Shared { int active; int maxp; int stop; long paths; int nextout; int errs; };

static Z3_context g_z3; static volatile int g_ticks;
struct Engine {
  L::LLVMContext ctx; std::unique_ptr<L::Module> M; const L::DataLayout* DL;
  std::map<const L::Function*,Fn*> fns; std::map<string,BI> bis; vector<Val> K; std::map<const L::GlobalValue*,u64> gaddr; std::map<u64,string> gname; std::unordered_map<u64,Fn*> fnByAddr;
  State* S=nullptr; vector<State*> work;
  // stats
  u64 steps=0,paths=0,forks=0,queries=0,qsat=0,qunsat=0,qunknown=0,cachehits=0,asserts=0,assertsTriv=0,infeas=0,maxsteps=0,unsup=0,limited=0; double solvert=0, t0=0; 
  std::map<string,u64> reached, unsupmsg; vector<ErrRec> errs; vector<vector<std::pair<InRec,u64>>> samples; std::set<string> errkeys; std::set<string> fnsRun;
  double budget=60; u64 maxstepsPath=200000000; u64 domhits=0, spawned=0, tthits=0, merged=0; int slvMax=getenv("SLVMAX")?atoi(getenv("SLVMAX")):50; double lastSplit=0, splitIv=getenv("SPLITIV")?atof(getenv("SPLITIV")):0.03; string outbase; string outfile; int maxerr=8; Shared* sh=nullptr; bool isRoot=true; bool verbose=false; u64 seenq=0;
  Z3_solver slv=nullptr, slv2=nullptr; std::unordered_map<u64,std::pair<int,Model>> qcache;
  int uninitCount=0; u64 filesN=0;
  std::map<u64,int> typeids; string harnessFn;
  std::map<string,string> params;
  long memlimMB=3500;

  void die(const string&s){ fprintf(stderr,"symx: %s\n",s.c_str()); _exit(3); }
  // ------------------------------------------------------------ types
  int widthOf(L::Type*t){ if(t->isIntegerTy()){ return t->getIntegerBitWidth(); } if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16; return -1; }
  int nsc(L::Type*t){ if(t->isVoidTy()) return 0; if(auto st=L::dyn_cast<L::StructType>(t)){ int n=0; for(auto e:st->elements()) n+=nsc(e); return n; } if(auto at=L::dyn_cast<L::ArrayType>(t)) return nsc(at->getElementType())*(int)at->getNumElements(); if (auto vt=L::dyn_cast<L::FixedVectorType>(t)) return nsc(vt->getElementType())*(int)vt->getNumElements(); return 1; }
  void scalars(L::Type*t,u64 off,vector<Sc>&o){ if(auto st=L::dyn_cast<L::StructType>(t)){ auto sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) scalars(st->getElementType(i),off+sl->getElementOffset(i),o); } else if(auto at=L::dyn_cast<L::ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) scalars(at->getElementType(),off+i*es,o); } else if (auto vt=L::dyn_cast<L::FixedVectorType>(t)){ u64 es=DL->getTypeAllocSize(vt->getElementType()); for(u64 i=0;i<vt->getNumElements();i++) scalars(vt->getElementType(),off+i*es,o);} else { int w=widthOf(t); if (w<0) w=0; o.push_back({(int)off,(int)((w+7)/8),w,false}); } }
  int elemSlot(L::Type*t,L::ArrayRef<unsigned> idx,L::Type*&rt){ int s=0; for(unsigned i:idx){ if(auto st=L::dyn_cast<L::StructType>(t)){ for(unsigned j=0;j<i;j++) s+=nsc(st->getElementType(j)); t=st->getElementType(i);} else { auto at=L::cast<L::ArrayType>(t); s+=nsc(at->getElementType())*(int)i; t=at->getElementType(); } } rt=t; return s; }

  // ------------------------------------------------------------ constants
  void constVals(const L::Constant*c,vector<Val>&o){
    auto t=c->getType();
    if (auto ci=L::dyn_cast<L::ConstantInt>(c)){ if(ci->getBitWidth()>64) { o.push_back(VC(ci->getValue().trunc(64).getZExtValue())); return; } o.push_back(VC(ci->getZExtValue())); return; }
    if (auto cf=L::dyn_cast<L::ConstantFP>(c)){ o.push_back(VC(cf->getValueAPF().bitcastToAPInt().getLimitedValue())); return; }
    if (L::isa<L::ConstantPointerNull>(c)){ o.push_back(VC(0)); return; }
    if (L::isa<L::UndefValue>(c)||L::isa<L::ConstantAggregateZero>(c)){ int n=nsc(t); for(int i=0;i<n;i++) o.push_back(VC(0)); return; }
    if (auto gv=L::dyn_cast<L::GlobalValue>(c)){ o.push_back(VC(addrOf(gv))); return; }
    if (auto ca=L::dyn_cast<L::ConstantDataSequential>(c)){ for(unsigned i=0;i<ca->getNumElements();i++) constVals(ca->getElementAsConstant(i),o); return; }
    if (auto ca=L::dyn_cast<L::ConstantAggregate>(c)){ for(unsigned i=0;i<ca->getNumOperands();i++) constVals(L::cast<L::Constant>(ca->getOperand(i)),o); return; }
    if (auto ce=L::dyn_cast<L::ConstantExpr>(c)){ o.push_back(VC(constExpr(ce))); return; }
    die("constant kind");
  }
  u64 c1(const L::Constant*c){ vector<Val> v; constVals(c,v); return v[0].c; }
  u64 constExpr(const L::ConstantExpr*ce){
    int w=widthOf(ce->getType());
    switch(ce->getOpcode()){
      case L::Instruction::GetElementPtr: { auto g=L::cast<L::GEPOperator>(ce); L::APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) die("gep const"); return c1(L::cast<L::Constant>(g->getPointerOperand()))+off.getZExtValue(); }
      case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: case L::Instruction::Trunc: case L::Instruction::AddrSpaceCast: return c1(ce->getOperand(0))&mask(w);
      case L::Instruction::Add: return (c1(ce->getOperand(0))+c1(ce->getOperand(1)))&mask(w); case L::Instruction::Sub: return (c1(ce->getOperand(0))-c1(ce->getOperand(1)))&mask(w);
      case L::Instruction::Xor: return (c1(ce->getOperand(0))^c1(ce->getOperand(1)))&mask(w);
      case L::Instruction::ICmp: { u64 a=c1(ce->getOperand(0)),b=c1(ce->getOperand(1)); switch(ce->getPredicate()){ case L::CmpInst::ICMP_EQ: return a==b; case L::CmpInst::ICMP_NE: return a!=b; default: die("constexpr icmp"); } }
      default: die(string("constexpr ")+ce->getOpcodeName());
    } return 0;
  }
  u64 addrOf(const L::GlobalValue*g){
    if (auto ga=L::dyn_cast<L::GlobalAlias>(g)) return c1(ga->getAliasee());
    auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
    die("no address for global "+g->getName().str()); return 0;
  }
  // ------------------------------------------------------------ object management
  u32 newObj(u64 size,u8 kind,bool uninit){
    u32 slot; u16 gen=0;
    if (S->freel.size()){ slot=S->freel.back(); S->freel.pop_back(); Obj*old=S->R(slot); gen=(old->gen+1)&0x7fff; objReplace(slot,nullptr); }
    else { slot=S->nslots++; if ((slot>>6)>=S->ch.size()){ Chunk*c=(Chunk*)calloc(1,sizeof(Chunk)); c->rc=1; S->ch.push_back(c);} if (S->nslots>=(1u<<23)) unsupported("too many objects"); }
    Obj*o=(Obj*)calloc(1,sizeof(Obj)); o->rc=1; o->size=(u32)size; o->gen=gen; o->kind=kind;
    if (kind!=K_FUNC){ if (uninit){ o->d=(u8*)malloc(size*2+1); memset(o->d,0,size); o->un=o->d+size; memset(o->un,1,size); } else o->d=(u8*)calloc(1,size?size:1); }
    objReplace(slot,o); return slot;
  }
  void objReplace(u32 slot,Obj*n){ Chunk*c=S->WC(slot>>6); if(c->o[slot&63]) objFree(c->o[slot&63]); c->o[slot&63]=n; }
  u64 alloc(u64 size,u8 kind,bool uninit=true){ if (size>14*1024*1024) { if (kind==K_HEAP) unsupported("allocation > 14 MB"); die("huge object"); } u32 s=newObj(size,kind,uninit); return mkaddr(s,S->R(s)->gen); }
  void dealloc(u32 slot){ Obj*o=S->R(slot); u16 g=o->gen; Obj*n=(Obj*)calloc(1,sizeof(Obj)); n->rc=1; n->gen=g; n->kind=K_FREE; objReplace(slot,n); }
  Obj* find(u64 addr,u64&off){ u32 slot=(addr>>24)&0xFFFFFF; if(slot==0||slot>=S->nslots) return nullptr; Obj*o=S->R(slot); if(!o||o->kind==K_FREE||o->gen!=(addr>>48)) return nullptr; off=(addr&0xFFFFFF)-OFFB; return o; }
  bool valid(u64 addr,u64 n,bool wr){ u64 off; Obj*o=find(addr,off); if(!o||o->kind==K_FUNC) return false; if (off>o->size||n>o->size-off) return false; if (wr&&o->kind==K_CONST) return false; return true; }
  string descr(u64 addr){ u32 slot=(addr>>24)&0xFFFFFF; char b[200]; if (addr<4096){ snprintf(b,200,"null+%llu",(unsigned long long)addr); return b; } if(slot==0||slot>=S->nslots) { snprintf(b,200,"wild pointer %llx",(unsigned long long)addr); return b; } Obj*o=S->R(slot); if(!o||o->kind==K_FREE||o->gen!=(addr>>48)) return "freed object"; snprintf(b,200,"offset %lld of %u-byte %s object",(long long)((addr&0xFFFFFF)-OFFB),o->size,o->kind==K_HEAP?"heap":o->kind==K_STACK?"stack":o->kind==K_FUNC?"function":"global"); return b; }
  [[noreturn]] void unsupported(const string&m){ unsup++; unsupmsg[m]++; throw PathEnd{3}; }

  // ------------------------------------------------------------ solver
  bool inPC(Expr*c){ for(Expr*x:S->pc) if(x==c) return true; return false; }
  // 1 sat, 0 unsat, -1 unknown. model: values for slice variables merged over S->model
  int slvUses=0; void newSlv(){ if(slv) Z3_solver_dec_ref(Z,slv); slv=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,slv); slvUses=0; }
  // z3's own timeout needs helper threads, which do not survive fork(): use an interval timer instead
  Z3_lbool timedCheck(Z3_solver s,double sec){ static bool init=false; if(!init){ init=true; g_z3=Z; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=[](int){ if(++g_ticks>50) _exit(9); Z3_interrupt(g_z3); }; sa.sa_flags=SA_RESTART; sigaction(SIGALRM,&sa,nullptr); }
    sec=std::max(0.2,std::min(sec,budget+5-(now()-t0))); struct itimerval iv; iv.it_value.tv_sec=(long)sec; iv.it_value.tv_usec=(long)((sec-(long)sec)*1e6); iv.it_interval.tv_sec=0; iv.it_interval.tv_usec=200000; g_ticks=0; setitimer(ITIMER_REAL,&iv,nullptr);
    Z3_lbool r=Z3_solver_check(Z,s); memset(&iv,0,sizeof iv); setitimer(ITIMER_REAL,&iv,nullptr); return r; }
  // few input bits: decide by the truth table of the constraints over all values of those inputs
  Z3_lbool truthTable(Expr*extra,const vector<Expr*>&sl,const Supp&sup,Model&md){
    vector<u64> vs; int bits=0; for(u64 i=0;i<g_vars.size();i++) if(sup.b[(i&255)>>6]>>(i&63)&1){ vs.push_back(i); bits+=g_vars[i].w; }
    if (bits>18) return Z3_L_UNDEF;
    tthits++;
    Model t=S->model; if(t.v.size()<g_vars.size()) t.v.resize(g_vars.size(),0);
    for(u64 x=0;x<(1ull<<bits);x++){ u64 y=x; for(u64 i:vs){ t.v[i]=y&mask(g_vars[i].w); y>>=g_vars[i].w; } u64 st=++g_stamp; bool ok=true; for(size_t k=0;ok&&k<sl.size();k++) ok=evalE(sl[k],t,st); if(ok&&evalE(extra,t,st)){ md=t; return Z3_L_TRUE; } }
    return Z3_L_FALSE; }
  // tables without regularity (a remainder, say) make terms of many thousand nodes
  std::unordered_map<Expr*,bool> heavyMemo;
  bool heavy(Expr*e){ if(!e||e->op==E_CONST||e->op==E_VAR) return false; auto it=heavyMemo.find(e); if(it!=heavyMemo.end()) return it->second; bool h=false;
    if(e->op==E_TAB&&e->tab->v.size()>2048){ auto&v=e->tab->v; size_t seg=0; for(size_t i=1;i<v.size();i++) if(v[i]!=v[i-1]&&v[i]!=v[i-1]+1) seg++; h=seg>1500; }
    h=h||heavy(e->a)||heavy(e->b)||heavy(e->c); heavyMemo[e]=h; return h; }
  int check(Expr*extra,Model*out){
    if (isC(extra)) { if (out) *out=S->model; return (int)extra->k; }
    if (inPC(extra)) { if(out) *out=S->model; return 1; }
    Expr*neg=mkNot(extra); if (inPC(neg)) return 0;
    int dd=decide(extra); if(dd>=0){ domhits++; if(dd&&out) *out=S->model; return dd; }
    // slice
    Supp sup=extra->s; vector<Expr*> sl; vector<char> used(S->pc.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<S->pc.size();i++) if(!used[i]&&S->pc[i]->s.inter(sup)){ used[i]=1; sup.add(S->pc[i]->s); ch=true; } }
    for(size_t i=0;i<S->pc.size();i++) if(used[i]) sl.push_back(S->pc[i]);
    vector<u32> ids; for(auto e:sl) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); u64 h=extra->id*0x9E3779B97F4A7C15ull; for(u32 i:ids){ h^=i; h*=0xff51afd7ed558ccdull; h^=h>>29; }
    auto it=qcache.find(h);
    if (it!=qcache.end()){ cachehits++; if(it->second.first==1&&out){ *out=S->model; mergeModel(*out,it->second.second,sup); } return it->second.first; }
    queries++; double t=now(); if(++slvUses>slvMax) newSlv();
    Model md; bool usedAlt=false; Z3_lbool r=Z3_L_UNDEF; Z3_solver s=slv;
    { bool hv=heavy(extra); for(size_t i=0;!hv&&i<sl.size();i++) hv=heavy(sl[i]); if(hv) r=truthTable(extra,sl,sup,md); }
    if (r==Z3_L_UNDEF){
    Z3_solver_push(Z,s);
    for(auto e:sl) Z3_solver_assert(Z,s,toB(e)); Z3_solver_assert(Z,s,toB(extra));
    static const char*dq=getenv("DUMPQ"); if(dq&&(int)queries==atoi(dq)){ fprintf(stderr,"Q at %s\n%s\n",where().c_str(),Z3_solver_to_string(Z,s)); }
    r=timedCheck(s,1.5);
    if (r==Z3_L_TRUE) getModel(s,md,sup);
    Z3_solver_pop(Z,s,1); }
    if (r==Z3_L_UNDEF) { r=truthTable(extra,sl,sup,md); }
    if (r==Z3_L_UNDEF){ usedAlt=true; s=slv2; Z3_solver_reset(Z,s); for(auto e:sl) Z3_solver_assert(Z,s,toB(e)); Z3_solver_assert(Z,s,toB(extra)); r=timedCheck(s,std::max(5.0,std::min(120.0,budget*0.5))); if(r==Z3_L_TRUE) getModel(s,md,sup); Z3_solver_reset(Z,s); }
    double dt=now()-t; solvert+=dt; if (verbose&&dt>0.5) fprintf(stderr,"slow query %.2fs r=%d alt=%d nc=%zu at %s\n",dt,(int)r,usedAlt,sl.size(),where().c_str());
    int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
    if (res==1){ qsat++; // validate model
      Model full=S->model; mergeModel(full,md,sup); u64 st=++g_stamp; bool ok=evalE(extra,full,st); for(auto e:sl) ok=ok&&evalE(e,full,st); if(!ok){ fprintf(stderr,"symx: model validation failed at %s\n",where().c_str()); unsupmsg["model validation failed"]++; unsup++; res=-1; }
      else if (out) *out=full; }
    else if (res==0) qunsat++; else qunknown++;
    if (qcache.size()>200000) qcache.clear();
    qcache[h]={res,md}; return res;
  }
  std::unordered_map<u64,Expr*> varExprs;
  void getModel(Z3_solver s,Model&md,const Supp&sup){ Z3_model m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m); md.v.assign(g_vars.size(),0); for(u64 i=0;i<g_vars.size();i++){ if(!(sup.b[(i&255)>>6]>>(i&63)&1)) continue; Expr*v=mk(E_VAR,g_vars[i].w,nullptr,nullptr,nullptr,i); Z3_ast r=nullptr; if(Z3_model_eval(Z,m,toZ(v),true,&r)&&r){ Z3_inc_ref(Z,r); uint64_t x=0; Z3_get_numeral_uint64(Z,r,&x); md.v[i]=x; Z3_dec_ref(Z,r);} } Z3_model_dec_ref(Z,m); }
  void mergeModel(Model&dst,const Model&src,const Supp&sup){ if(dst.v.size()<src.v.size()) dst.v.resize(src.v.size(),0); for(u64 i=0;i<src.v.size();i++) if(sup.b[(i&255)>>6]>>(i&63)&1) dst.v[i]=src.v[i]; }
  void addPC(Expr*c){ if(isC(c)) return; if (c->op==E_AND&&c->w==1){ addPC(c->a); addPC(c->b); return; } if(!inPC(c)){ S->pc.push_back(c); restrictDom(c); } }
  // value sets of small-range expressions implied by the path condition (an over-approximation)
  void restrictDom(Expr*c){ if(c->op!=E_TAB&&c->op!=E_NOT&&c->op!=E_EQ&&c->op!=E_ULT) return; Expr*X; vector<u64> v; if(!tabOf(c,X,v,4096)||X==c||X->w==1) return;
    for(auto&p:S->dom) if(p.first==X){ auto n=std::make_shared<vector<u8>>(*p.second); for(size_t i=0;i<v.size();i++) if(!v[i]) (*n)[i]=0; p.second=n; return; }
    auto n=std::make_shared<vector<u8>>(v.size()); for(size_t i=0;i<v.size();i++) (*n)[i]=v[i]!=0; S->dom.push_back({X,n}); }
  // 1 always true, 0 always false under the value sets, -1 unknown
  int decide(Expr*c){ if(S->dom.empty()||(c->op!=E_TAB&&c->op!=E_NOT&&c->op!=E_EQ&&c->op!=E_ULT)) return -1; Expr*X; vector<u64> v; if(!tabOf(c,X,v,4096)||X==c) return -1; auto d=S->domOf(X); if(!d) return -1; bool t=false,f=false; for(size_t i=0;i<v.size();i++) if((*d)[i]){ if(v[i]) t=true; else f=true; if(t&&f) return -1; } return t?1:0; }
  // ------------------------------------------------------------ errors
  string where(){ string s; if(S) for(int i=(int)S->fr.size()-1,n=0;i>=0&&n<6;i--){ auto&f=S->fr[i]; string nm=f.f->name; int st; char*d=abi::__cxa_demangle(nm.c_str(),nullptr,nullptr,&st); if(d){ nm=d; free(d);} size_t p=nm.find('('); if(p!=string::npos&&p>0) nm=nm.substr(0,p); if (nm.size()>90) nm=nm.substr(0,90); if(n) s+=" < "; s+=nm; n++; } return s; }
  void recordErr(const string&kind,const string&msg,const Model&m){
    string wh=where(); string key=kind+"|"+msg+"|"+wh; 
    if(errkeys.insert(key).second&&(int)errs.size()<maxerr){
      ErrRec e; e.kind=kind; e.msg=msg; e.where=wh; e.inputs=S->inputs; u64 st=++g_stamp; for(auto&i:S->inputs) e.vals.push_back(i.e? evalE(i.e,m,st): i.c); e.uninit=false; for(u64 i=0;i<g_vars.size();i++) if(g_vars[i].kind==1&&m.get(i)) e.uninit=true; 
      for(auto&n:S->notes) e.notes.push_back({n.first,n.second.e? evalE(n.second.e,m,st): n.second.c});
      errs.push_back(e); if(verbose){ fprintf(stderr,"ERROR %s: %s at %s\n",kind.c_str(),msg.c_str(),wh.c_str()); for(size_t i=0;i<e.vals.size();i++) fprintf(stderr,"   %s=%llx\n",e.inputs[i].name.c_str(),(unsigned long long)e.vals[i]); }
      if (sh) __sync_fetch_and_add(&sh->errs,1);
    }
  }
  [[noreturn]] void error(const string&kind,const string&msg){ recordErr(kind,msg,S->model); throw PathEnd{1}; }
  // condition bad must be infeasible; otherwise report. Continues with !bad assumed.
  void mustNot(Expr*bad,const string&kind,const string&msg){
    if(isC(bad)){ if(bad->k) error(kind,msg); return; }
    Model m; int r=check(bad,&m);
    if (r==1){ recordErr(kind,msg,m); Model m2; Expr*ok=mkNot(bad); if(check(ok,&m2)!=1) throw PathEnd{1}; S->model=m2; addPC(ok); return; }
    if (r<0){ unsup++; unsupmsg["solver unknown: "+kind]++; return; }
  }
  u64 concretize(const Val&v,int w=64){
    if(!v.e) return v.c; Expr*e=v.e; u64 x=evalE(e,S->model); Expr*eq=mkEq(e,mkConst(x,e->w)); if (isC(eq)) return x; Expr*ne=mkNot(eq);
    if (!inPC(eq)){ Model m; int r=check(ne,&m); if(r==1){ State*n=new State(*S); forks++; n->model=m; State*o=S; S=n; addPC(ne); S=o; push(n); } else if(r<0){ unsup++; unsupmsg["solver unknown: concretize"]++; } addPC(eq); }
    return x;
  }
  void push(State*n){ n->depth++; 
    work.push_back(n); }
  // ------------------------------------------------------------ memory access
  vector<Expr*> unv;  // uninitialised bytes, numbered per path
  Expr* byteAt(Obj*o,u64 off,u32 slot){ if(o->s&&o->s[off]) return o->s[off]; if(o->un&&o->un[off]){ if(S->nun>=unv.size()) unv.push_back(mkVar("uninit",8,1)); Expr*v=unv[S->nun++]; Obj*w=S->W(slot); setByteE(w,off,v); return v; } return mkConst(o->d[off],8); }
  void setByteE(Obj*w,u64 off,Expr*e){ if(isC(e)){ w->d[off]=(u8)e->k; if(w->s&&w->s[off]){ w->s[off]=nullptr; w->nsym--; } } else { if(!w->s){ w->s=(Expr**)calloc(w->size,sizeof(Expr*)); } if(!w->s[off]) w->nsym++; w->s[off]=e; } if(w->un) w->un[off]=0; }
  Val loadC(u64 addr,int n,int w){
    u64 off; Obj*o=find(addr,off); if(!o||o->kind==K_FUNC||off>o->size||(u64)n>o->size-off) error("memory","out-of-bounds or invalid read of "+std::to_string(n)+" bytes at "+descr(addr));
    bool symb=false; if(o->nsym) for(int i=0;i<n;i++) if(o->s[off+i]){ symb=true; break; }
    bool un=false; if(o->un&&memchr(o->un+off,1,n)) un=true;
    if(!symb&&!un){ u64 v=0; memcpy(&v,o->d+off,n); return VC(v&mask(w)); }
    u32 slot=(addr>>24)&0xFFFFFF; Expr*r=nullptr; for(int i=0;i<n;i++){ Expr*b=byteAt(S->R(slot),off+i,slot); r= r? mkConcat(b,r): b; }
    if(r->w>w) r=mkExtract(r,0,w); return VE(r);
  }
  void storeC(u64 addr,int n,int w,const Val&v){
    u64 off; Obj*o=find(addr,off); if(!o||o->kind==K_FUNC||off>o->size||(u64)n>o->size-off) error("memory","out-of-bounds or invalid write of "+std::to_string(n)+" bytes at "+descr(addr));
    if(o->kind==K_CONST) error("memory","write to constant data");
    o=S->W((addr>>24)&0xFFFFFF);
    if(!v.e){ u64 x=v.c; memcpy(o->d+off,&x,n); if(o->un) memset(o->un+off,0,n); if(o->nsym) for(int i=0;i<n;i++) if(o->s[off+i]){ o->s[off+i]=nullptr; o->nsym--; } return; }
    Expr*e=v.e; if(e->w<n*8) e=mkZext(e,n*8);
    for(int i=0;i<n;i++) setByteE(o,off+i,mkExtract(e,8*i,8));
  }
  // candidate addresses of a symbolic pointer: function of X
  bool cands(Expr*a,Expr*&X,vector<u64>&v){
    if(tabOf(a,X,v,65536)) return true;
    if(a->op==E_ADD){ Expr*p=a->a,*q=a->b; u64 k=0; if(isC(q)){ k=q->k; if(p->op==E_ADD){ q=p->b; p=p->a; } else return false; }
      Expr*X1,*X2; vector<u64> v1,v2; if(tabOf(p,X1,v1,65536)&&tabOf(q,X2,v2,65536)&&X1!=X2&&X1->w+X2->w<=64&&(X1->hi-X1->lo+2)*(1ull<<std::min<int>(X2->w,40))<=(1u<<17)){ X=mkConcat(X1,X2); if(isC(X)) return false; v.assign(X->hi-X->lo+1,0); for(u64 i=0;i<v.size();i++){ u64 x=X->lo+i; u64 x1=x>>X2->w,x2=x&mask(X2->w); if(x1<X1->lo||x1>X1->hi||x2<X2->lo||x2>X2->hi) { v[i]=~0ull; continue; } v[i]=v1[x1-X1->lo]+v2[x2-X2->lo]+k; } if(X->op==E_TAB||X->op==E_ZEXT){ return false; } return true; }
    }
    return false;
  }
  bool possible(Expr*X,u64 x,vector<u8>*d){ if(d&&!(*d)[x-X->lo]) return false; return (x&X->kz&mask(X->w))==0&&(X->ko&~x)==0; }
  Val load(const Val&p,int n,int w){
    if(!p.e) return loadC(p.c,n,w);
    Expr*X; vector<u64> v; 
    if(!cands(p.e,X,v)) return loadC(concretize(p),n,w);
    // validity
    vector<u8>*dm=S->domOf(X); vector<u64> bad(v.size(),0); bool anybad=false; u64 good=0; 
    for(u64 i=0;i<v.size();i++) if(possible(X,X->lo+i,dm)){ if(!valid(v[i],n,false)){ bad[i]=1; anybad=true; } else good=v[i]; } else bad[i]=2;
    if(anybad){ u64 b0=0; vector<u64> bb(v.size()); for(u64 i=0;i<v.size();i++){ bb[i]=bad[i]==1; if(bb[i]) b0=v[i]; } mustNot(mkTab(X,std::move(bb),1),"memory","out-of-bounds or invalid read through computed index ("+descr(b0)+")"); }
    for(u64 i=0;i<v.size();i++) if(bad[i]) v[i]=good;
    // all concrete?
    std::unordered_map<u64,int> uniq; bool conc=true; vector<u64> order;
    for(u64 a:v) if(uniq.emplace(a,0).second){ order.push_back(a); u64 off; Obj*o=find(a,off); if(o->nsym){ for(int j=0;j<n;j++) if(o->s[off+j]) conc=false; } if(o->un&&memchr(o->un+off,1,n)) conc=false; }
    if(conc){ vector<u64> r(v.size()); for(u64 i=0;i<v.size();i++){ u64 off; Obj*o=find(v[i],off); u64 x=0; memcpy(&x,o->d+off,n); r[i]=x&mask(w); } return VE(mkTab(X,std::move(r),w)); }
    if(order.size()>260) return loadC(concretize(p),n,w);
    Expr*r=nullptr; for(u64 a:order){ Val x=loadC(a,n,w); Expr*xe=EX(x,w); if(!r){ r=xe; continue; } vector<u64> c(v.size()); for(u64 i=0;i<v.size();i++) c[i]=v[i]==a; r=mkIte(mkTab(X,std::move(c),1),xe,r); }
    return VE(r);
  }
  void store(const Val&p,int n,int w,const Val&val){
    if(!p.e){ storeC(p.c,n,w,val); return; }
    Expr*X; vector<u64> v; if(!cands(p.e,X,v)){ storeC(concretize(p),n,w,val); return; }
    vector<u8>*dm=S->domOf(X); vector<u64> bad(v.size(),0); bool anybad=false; u64 good=0; for(u64 i=0;i<v.size();i++) if(possible(X,X->lo+i,dm)){ if(!valid(v[i],n,true)){ bad[i]=1; anybad=true; } else good=v[i]; } else bad[i]=2;
    if(anybad){ u64 b0=0; vector<u64> bb(v.size()); for(u64 i=0;i<v.size();i++){ bb[i]=bad[i]==1; if(bb[i]) b0=v[i]; } mustNot(mkTab(X,std::move(bb),1),"memory","out-of-bounds or invalid write through computed index ("+descr(b0)+")"); }
    for(u64 i=0;i<v.size();i++) if(bad[i]) v[i]=good;
    std::unordered_map<u64,int> uniq; vector<u64> order; for(u64 a:v) if(uniq.emplace(a,0).second) order.push_back(a);
    if(order.size()>260){ storeC(concretize(p),n,w,val); return; }
    Expr*nv=EX(val,w); for(u64 a:order){ vector<u64> c(v.size()); for(u64 i=0;i<v.size();i++) c[i]=v[i]==a; Expr*cond=mkTab(X,std::move(c),1); Expr*old=EX(loadC(a,n,w),w); storeC(a,n,w,VE(mkIte(cond,nv,old))); }
  }
  void copyMem(u64 d,u64 s,u64 n){
    if(!n) return; u64 so,doff; Obj*os=find(s,so); if(!os||os->kind==K_FUNC||so>os->size||n>os->size-so) error("memory","out-of-bounds or invalid read of "+std::to_string(n)+" bytes at "+descr(s));
    Obj*od=find(d,doff); if(!od||od->kind==K_FUNC||doff>od->size||n>od->size-doff) error("memory","out-of-bounds or invalid write of "+std::to_string(n)+" bytes at "+descr(d)); if(od->kind==K_CONST) error("memory","write to constant data");
    if (d==s) return;
    os->rc++; od=S->W((d>>24)&0xFFFFFF); // os kept alive (W may clone when same object)
    if (os==od) { /* same obj, rc was >1 so W cloned */ }
    memmove(od->d+doff,os->d+so,n);
    if(os->un){ if(od->un) memmove(od->un+doff,os->un+so,n); else { bool any=memchr(os->un+so,1,n); if(any){ u8*nd=(u8*)malloc((size_t)od->size*2+1); memcpy(nd,od->d,od->size); memset(nd+od->size,0,od->size); free(od->d); od->d=nd; od->un=nd+od->size; memmove(od->un+doff,os->un+so,n); } } } else if(od->un) memset(od->un+doff,0,n);
    if(os->nsym||od->nsym){ if(!od->s) od->s=(Expr**)calloc(od->size,sizeof(Expr*)); if (os->s){ vector<Expr*> tmp(os->s+so,os->s+so+n); for(u64 i=0;i<n;i++){ if(od->s[doff+i]) od->nsym--; od->s[doff+i]=tmp[i]; if(tmp[i]) od->nsym++; } } else for(u64 i=0;i<n;i++) if(od->s[doff+i]){ od->s[doff+i]=nullptr; od->nsym--; } }
    objFree(os);
  }
  string cstr(u64 a){ string r; for(;;){ Val v=loadC(a++,1,8); u64 c=v.e? evalE(v.e,S->model): v.c; if(!c) break; r+=(char)c; if(r.size()>100000) break; } return r; }
  // ------------------------------------------------------------ compile
  void layout();
  void compile(Fn*f);
  Fn* fnOf(const L::Function*F){ return fns[F]; }
  // ------------------------------------------------------------ run
  void run(State*s);
  void step();
  void pushFrame(Fn*f,vector<Val>&args,u64 va);
  void doEdge(const Edge&e);
  void unwind(u64 obj,u64 ti);
  bool tiMatch(u64 thrown,u64 want,u64&adj);
  Fn* resolveFn(const Val&v);
  void explore(); void report(const string&path); void maybeSplit();
  void finishChild();
  Val bin(unsigned opc,int w,const Val&a,const Val&b);
  Val icmp(unsigned p,int w,const Val&a,const Val&b);
  bool mergeArms(const Ins&I,Expr*cond);
};
typedef vector<Val> VV;

// ================================================================= layout
void Engine::layout(){
  S=new State(); newObj(0,K_CONST,false); // slot 0
  for(auto&F:*M){ Fn*f=new Fn; f->F=&F; f->name=F.getName().str(); f->defined=!F.isDeclaration(); f->vararg=F.isVarArg(); auto it=bis.find(f->name); if(it!=bis.end()) { f->bi=it->second; f->defined=false; } fns[&F]=f; u32 s=newObj(0,K_FUNC,false); f->addr=mkaddr(s,0); gaddr[&F]=f->addr; fnByAddr[f->addr]=f; gname[f->addr]=f->name; }
  for(auto&G:M->globals()){ u64 sz=G.getValueType()->isSized()? DL->getTypeAllocSize(G.getValueType()): 8; if (G.isDeclaration()&&sz<64) sz=64; u32 s=newObj(sz,K_GLOBAL,false); gaddr[&G]=mkaddr(s,0); gname[gaddr[&G]]=G.getName().str(); }
  for(auto&G:M->globals()) if(G.hasInitializer()){
    u64 a=gaddr[&G]; vector<Sc> sc; scalars(G.getValueType(),0,sc); VV v; constVals(G.getInitializer(),v); if(v.size()!=sc.size()) die("init size "+G.getName().str());
    Obj*o=S->W((a>>24)&0xFFFFFF); for(size_t i=0;i<sc.size();i++) memcpy(o->d+sc[i].off,&v[i].c,std::min(8,sc[i].bytes)); 
  }
  for(auto&G:M->globals()) if(G.isConstant()&&G.hasInitializer()) S->W((gaddr[&G]>>24)&0xFFFFFF)->kind=K_CONST;
}
// ================================================================= compile
void Engine::compile(Fn*f){
  f->compiled=true; L::Function&F=*f->F; std::map<const L::Value*,int> reg; int n=0;
  for(auto&A:F.args()){ reg[&A]=n; n+=nsc(A.getType()); } f->nargs=n;
  for(auto&B:F) for(auto&I:B){ int k=nsc(I.getType()); if(k){ reg[&I]=n; n+=k; } }
  f->nregs=n;
  auto opnd=[&](const L::Value*v)->int{ auto it=reg.find(v); if(it!=reg.end()) return it->second; if(auto c=L::dyn_cast<L::Constant>(v)){ int s=(int)K.size(); VV t; constVals(c,t); if(t.empty()) t.push_back(VC(0)); for(auto&x:t) K.push_back(x); return ~s; } K.push_back(VC(0)); return ~(int)(K.size()-1); };
  std::map<const L::BasicBlock*,u32> start; u32 pos=0; for(auto&B:F){ start[&B]=pos; for(auto&I:B) if(!L::isa<L::PHINode>(I)) pos++; }
  auto edge=[&](const L::BasicBlock*from,const L::BasicBlock*to){ Edge e; e.target=start[to]; e.mv=(u32)f->mvs.size(); for(auto&I:*to){ auto ph=L::dyn_cast<L::PHINode>(&I); if(!ph) break; int k=nsc(ph->getType()); int src=opnd(ph->getIncomingValueForBlock(from)); for(int j=0;j<k;j++) f->mvs.push_back({reg[ph]+j, src>=0? src+j: ~(~src+j), (u8)(k==1&&ph->getType()->isIntegerTy()&&ph->getType()->getIntegerBitWidth()<=64? ph->getType()->getIntegerBitWidth(): 0)}); } e.nmv=(u32)f->mvs.size()-e.mv; return e; };
  for(auto&B:F) for(auto&I:B){
    if(L::isa<L::PHINode>(I)) continue;
    Ins in{}; in.I=&I; in.dst= reg.count(&I)? reg[&I]: -1; in.w=(u8)std::max(0,std::min(255,nsc(I.getType())==1&&!I.getType()->isAggregateType()? widthOf(I.getType()):0)); in.op=O_UNSUP; in.s=I.getOpcodeName();
    auto ow=[&](int i){ return widthOf(I.getOperand(i)->getType()); };
    bool vec=false; if (I.getType()->isVectorTy()) vec=true; for(auto&o:I.operands()) if(o->getType()->isVectorTy()) vec=true;
    bool fp80=false; for(auto&o:I.operands()) if(o->getType()->isX86_FP80Ty()) fp80=true; if (I.getType()->isX86_FP80Ty()) fp80=true;
    if(vec&&!L::isa<L::LoadInst>(I)&&!L::isa<L::StoreInst>(I)&&!L::isa<L::ExtractElementInst>(I)&&!L::isa<L::InsertElementInst>(I)&&!L::isa<L::ReturnInst>(I)&&!L::isa<L::CallBase>(I)&&!L::isa<L::ExtractValueInst>(I)&&!L::isa<L::InsertValueInst>(I)){ f->code.push_back(in); continue; }
    if(fp80){ f->code.push_back(in); continue; }
    switch(I.getOpcode()){
      case L::Instruction::Add: case L::Instruction::Sub: case L::Instruction::Mul: case L::Instruction::UDiv: case L::Instruction::SDiv: case L::Instruction::URem: case L::Instruction::SRem: case L::Instruction::And: case L::Instruction::Or: case L::Instruction::Xor: case L::Instruction::Shl: case L::Instruction::LShr: case L::Instruction::AShr:
        if(in.w>64||in.w==0) break; in.op=O_BIN; in.sub=(u16)I.getOpcode(); in.a=opnd(I.getOperand(0)); in.b=opnd(I.getOperand(1)); break;
      case L::Instruction::ICmp: if(ow(0)>64) break; in.op=O_ICMP; in.sub=(u16)L::cast<L::ICmpInst>(I).getPredicate(); in.w=(u8)ow(0); in.a=opnd(I.getOperand(0)); in.b=opnd(I.getOperand(1)); break;
      case L::Instruction::FAdd: case L::Instruction::FSub: case L::Instruction::FMul: case L::Instruction::FDiv: in.op=O_FBIN; in.sub=(u16)I.getOpcode(); in.a=opnd(I.getOperand(0)); in.b=opnd(I.getOperand(1)); break;
      case L::Instruction::FCmp: in.op=O_FCMP; in.sub=(u16)L::cast<L::FCmpInst>(I).getPredicate(); in.w=(u8)ow(0); in.a=opnd(I.getOperand(0)); in.b=opnd(I.getOperand(1)); break;
      case L::Instruction::FNeg: in.op=O_FNEG; in.a=opnd(I.getOperand(0)); break;
      case L::Instruction::Load: { auto t=I.getType(); in.a=opnd(I.getOperand(0)); if(t->isAggregateType()||t->isVectorTy()||widthOf(t)>64){ if(widthOf(t)>64) break; in.op=O_LOADAGG; scalars(t,0,in.sc); } else { in.op=O_LOAD; in.k=DL->getTypeStoreSize(t); } break; }
      case L::Instruction::Store: { auto t=I.getOperand(0)->getType(); in.a=opnd(I.getOperand(1)); in.b=opnd(I.getOperand(0)); if(t->isAggregateType()||t->isVectorTy()||widthOf(t)>64){ if(widthOf(t)>64) break; in.op=O_STOREAGG; scalars(t,0,in.sc); } else { in.op=O_STORE; in.w=(u8)widthOf(t); in.k=DL->getTypeStoreSize(t); } break; }
      case L::Instruction::GetElementPtr: { in.op=O_GEP; in.a=opnd(I.getOperand(0)); in.k=0; auto&g=L::cast<L::GetElementPtrInst>(I); for(auto gt=L::gep_type_begin(g),ge=L::gep_type_end(g);gt!=ge;++gt){ auto ix=gt.getOperand(); if(auto st=gt.getStructTypeOrNull()){ in.k+=DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(ix)->getZExtValue()); } else { u64 sz=DL->getTypeAllocSize(gt.getIndexedType()); if(auto ci=L::dyn_cast<L::ConstantInt>(ix)) in.k+=(u64)ci->getSExtValue()*sz; else in.gi.push_back({opnd(ix),sz,widthOf(ix->getType())}); } } break; }
      case L::Instruction::Alloca: { auto&al=L::cast<L::AllocaInst>(I); in.op=O_ALLOCA; in.k=DL->getTypeAllocSize(al.getAllocatedType()); in.a=opnd(al.getArraySize()); break; }
      case L::Instruction::Trunc: case L::Instruction::ZExt: case L::Instruction::SExt: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: if(ow(0)>64||in.w>64) break; in.op=O_CAST; in.sub=(u16)I.getOpcode(); in.w2=(u8)ow(0); in.a=opnd(I.getOperand(0)); break;
      case L::Instruction::BitCast: case L::Instruction::Freeze: case L::Instruction::AddrSpaceCast: in.op=O_MOVE; in.a=opnd(I.getOperand(0)); in.nret=nsc(I.getType()); break;
      case L::Instruction::SIToFP: case L::Instruction::UIToFP: case L::Instruction::FPToSI: case L::Instruction::FPToUI: case L::Instruction::FPExt: case L::Instruction::FPTrunc: in.op=O_FCAST; in.sub=(u16)I.getOpcode(); in.w2=(u8)ow(0); in.a=opnd(I.getOperand(0)); break;
      case L::Instruction::Select: in.op=O_SELECT; in.a=opnd(I.getOperand(0)); in.b=opnd(I.getOperand(1)); in.c=opnd(I.getOperand(2)); in.nret=nsc(I.getType()); { vector<Sc> sc; scalars(I.getType(),0,sc); for(auto&x:sc) in.retw.push_back(x.w);} break;
      case L::Instruction::Br: { auto&b=L::cast<L::BranchInst>(I); if(b.isUnconditional()){ in.op=O_BR; in.e1=edge(&B,b.getSuccessor(0)); } else { in.op=O_CBR; in.a=opnd(b.getCondition()); in.e1=edge(&B,b.getSuccessor(0)); in.e2=edge(&B,b.getSuccessor(1)); } break; }
      case L::Instruction::Switch: { auto&s=L::cast<L::SwitchInst>(I); in.op=O_SWITCH; in.a=opnd(s.getCondition()); in.w=(u8)widthOf(s.getCondition()->getType()); in.e1=edge(&B,s.getDefaultDest()); for(auto c:s.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(),edge(&B,c.getCaseSuccessor())}); break; }
      case L::Instruction::Ret: in.op=O_RET; in.nret=0; if(I.getNumOperands()){ in.a=opnd(I.getOperand(0)); in.nret=nsc(I.getOperand(0)->getType()); } break;
      case L::Instruction::Unreachable: in.op=O_UNREACH; break;
      case L::Instruction::Call: case L::Instruction::Invoke: {
        auto&cb=L::cast<L::CallBase>(I); in.op=O_CALL; in.nret=nsc(I.getType()); in.invoke=L::isa<L::InvokeInst>(I);
        for(auto&a:cb.args()){ if(a->getType()->isMetadataTy()){ continue; } int k=nsc(a->getType()); int o=opnd(a.get()); for(int j=0;j<k;j++) in.args.push_back({o>=0?o+j:~(~o+j), k==1? widthOf(a->getType()):64}); }
        if(auto cf=L::dyn_cast<L::Function>(cb.getCalledOperand()->stripPointerCasts())){ in.callee=fnOf(cf); if(cf->isIntrinsic()){ auto id=cf->getIntrinsicID(); if(id==L::Intrinsic::dbg_declare||id==L::Intrinsic::dbg_value||id==L::Intrinsic::dbg_label||id==L::Intrinsic::lifetime_start||id==L::Intrinsic::lifetime_end||id==L::Intrinsic::experimental_noalias_scope_decl||id==L::Intrinsic::assume||id==L::Intrinsic::invariant_start||id==L::Intrinsic::invariant_end||id==L::Intrinsic::prefetch||id==L::Intrinsic::donothing||id==L::Intrinsic::stackrestore||id==L::Intrinsic::var_annotation||id==L::Intrinsic::vaend) in.op=O_NOP; } }
        else { if (cb.isInlineAsm()){ in.op=O_NOP; if(in.nret) in.op=O_UNSUP; } else { in.callee=nullptr; in.a=opnd(cb.getCalledOperand()); } }
        if(auto iv=L::dyn_cast<L::InvokeInst>(&I)){ in.e1=edge(&B,iv->getNormalDest()); in.e2=edge(&B,iv->getUnwindDest()); if(in.op==O_NOP){ in.op=O_BR; } }
        { vector<Sc> sc; if(!I.getType()->isVoidTy()) scalars(I.getType(),0,sc); for(auto&x:sc) in.retw.push_back(x.w); }
        break; }
      case L::Instruction::ExtractValue: { in.op=O_MOVE; L::Type*rt; auto&ev=L::cast<L::ExtractValueInst>(I); int s=elemSlot(ev.getAggregateOperand()->getType(),ev.getIndices(),rt); int o=opnd(ev.getAggregateOperand()); in.a= o>=0? o+s: ~(~o+s); in.nret=nsc(I.getType()); break; }
      case L::Instruction::ExtractElement: { auto*ix=L::dyn_cast<L::ConstantInt>(I.getOperand(1)); if(!ix||nsc(I.getType())!=1){ in.op=O_UNSUP; break; } in.op=O_MOVE; int s=(int)ix->getZExtValue(); int o=opnd(I.getOperand(0)); in.a= o>=0? o+s: ~(~o+s); in.nret=1; break; }
      case L::Instruction::InsertElement: { auto*ix=L::dyn_cast<L::ConstantInt>(I.getOperand(2)); if(!ix||nsc(I.getOperand(1)->getType())!=1){ in.op=O_UNSUP; break; } in.op=O_INSERTV; in.k=(int)ix->getZExtValue(); in.a=opnd(I.getOperand(0)); in.b=opnd(I.getOperand(1)); in.nret=nsc(I.getType()); in.c=1; break; }
      case L::Instruction::InsertValue: { in.op=O_INSERTV; L::Type*rt; auto&iv=L::cast<L::InsertValueInst>(I); in.k=elemSlot(iv.getAggregateOperand()->getType(),iv.getIndices(),rt); in.a=opnd(iv.getAggregateOperand()); in.b=opnd(iv.getInsertedValueOperand()); in.nret=nsc(I.getType()); in.c=nsc(iv.getInsertedValueOperand()->getType()); break; }
      case L::Instruction::LandingPad: { in.op=O_LPAD; auto&lp=L::cast<L::LandingPadInst>(I); in.cleanup=lp.isCleanup(); for(unsigned i=0;i<lp.getNumClauses();i++){ LPClause c; c.isFilter=lp.isFilter(i); VV v; constVals(lp.getClause(i),v); for(auto&x:v) c.tis.push_back(x.c); in.lp.push_back(c);} break; }
      case L::Instruction::Resume: in.op=O_RESUME; in.a=opnd(I.getOperand(0)); break;
      case L::Instruction::Fence: in.op=O_NOP; break;
      case L::Instruction::AtomicRMW: { auto&r=L::cast<L::AtomicRMWInst>(I); in.op=O_ARMW; in.sub=(u16)r.getOperation(); in.a=opnd(r.getPointerOperand()); in.b=opnd(r.getValOperand()); break; }
      case L::Instruction::AtomicCmpXchg: { auto&r=L::cast<L::AtomicCmpXchgInst>(I); in.op=O_CMPXCHG; in.a=opnd(r.getPointerOperand()); in.b=opnd(r.getCompareOperand()); in.c=opnd(r.getNewValOperand()); in.w=(u8)widthOf(r.getCompareOperand()->getType()); break; }
      default: break;
    }
    f->code.push_back(std::move(in));
  }
}
// ================================================================= arithmetic
Val Engine::bin(unsigned opc,int w,const Val&a,const Val&b){
  EOp op; switch(opc){ case L::Instruction::Add: op=E_ADD; break; case L::Instruction::Sub: op=E_SUB; break; case L::Instruction::Mul: op=E_MUL; break; case L::Instruction::UDiv: op=E_UDIV; break; case L::Instruction::SDiv: op=E_SDIV; break; case L::Instruction::URem: op=E_UREM; break; case L::Instruction::SRem: op=E_SREM; break; case L::Instruction::And: op=E_AND; break; case L::Instruction::Or: op=E_OR; break; case L::Instruction::Xor: op=E_XOR; break; case L::Instruction::Shl: op=E_SHL; break; case L::Instruction::LShr: op=E_LSHR; break; default: op=E_ASHR; }
  if(op>=E_UDIV&&op<=E_SREM){ if(!b.e){ if(b.c==0) error("arith","division by zero"); } else mustNot(mkEq(b.e,mkConst(0,w)),"arith","division by zero"); }
  if(!a.e&&!b.e) return VC(evalOp(op,w,w,0,a.c,b.c,0));
  return VE(bin_(op,EX(a,w),EX(b,w)));
}
Val Engine::icmp(unsigned p,int w,const Val&a,const Val&b){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c; i64 s=sx(x,w),t=sx(y,w); switch(p){ case L::CmpInst::ICMP_EQ: return VC(x==y); case L::CmpInst::ICMP_NE: return VC(x!=y); case L::CmpInst::ICMP_UGT: return VC(x>y); case L::CmpInst::ICMP_UGE: return VC(x>=y); case L::CmpInst::ICMP_ULT: return VC(x<y); case L::CmpInst::ICMP_ULE: return VC(x<=y); case L::CmpInst::ICMP_SGT: return VC(s>t); case L::CmpInst::ICMP_SGE: return VC(s>=t); case L::CmpInst::ICMP_SLT: return VC(s<t); default: return VC(s<=t);} }
  Expr*x=EX(a,w),*y=EX(b,w); switch(p){ case L::CmpInst::ICMP_EQ: return VE(mkEq(x,y)); case L::CmpInst::ICMP_NE: return VE(mkNot(mkEq(x,y))); case L::CmpInst::ICMP_UGT: return VE(mkUlt(y,x)); case L::CmpInst::ICMP_UGE: return VE(mkNot(mkUlt(x,y))); case L::CmpInst::ICMP_ULT: return VE(mkUlt(x,y)); case L::CmpInst::ICMP_ULE: return VE(mkNot(mkUlt(y,x))); case L::CmpInst::ICMP_SGT: return VE(mkSlt(y,x)); case L::CmpInst::ICMP_SGE: return VE(mkNot(mkSlt(x,y))); case L::CmpInst::ICMP_SLT: return VE(mkSlt(x,y)); default: return VE(mkNot(mkSlt(y,x))); }
}
// ================================================================= control
void Engine::pushFrame(Fn*f,VV&args,u64 va){
  if(!f->compiled) compile(f);
  f->hits++;
  if(S->fr.size()>2000) error("stack","call depth exceeds 2000");
  Frame fr; fr.f=f; fr.pc=0; fr.base=(u32)S->stk.size(); fr.va=va; fr.callpc=0;
  S->stk.resize(S->stk.size()+f->nregs,Val{nullptr,0});
  for(int i=0;i<f->nargs&&i<(int)args.size();i++) S->stk[fr.base+i]=args[i];
  S->fr.push_back(std::move(fr));
}
void Engine::doEdge(const Edge&e){
  Frame&fr=S->fr.back(); if(e.nmv){ Val*b=&S->stk[fr.base]; Mv*m=&fr.f->mvs[e.mv]; if(e.nmv==1){ b[m->dst]= m->src>=0? b[m->src]: K[~m->src]; } else { Val tmp[64]; VV big; Val*t=tmp; if(e.nmv>64){ big.resize(e.nmv); t=big.data(); } for(u32 i=0;i<e.nmv;i++) t[i]= m[i].src>=0? b[m[i].src]: K[~m[i].src]; for(u32 i=0;i<e.nmv;i++) b[m[i].dst]=t[i]; } }
  fr.pc=e.target;
}
Fn* Engine::resolveFn(const Val&v){ u64 a= v.e? concretize(v): v.c; auto it=fnByAddr.find(a); if(it==fnByAddr.end()) error("memory","call through invalid function pointer ("+descr(a)+")"); return it->second; }
bool Engine::tiMatch(u64 thrown,u64 want,u64&adj){
  if(thrown==want) return true;
  auto nm=gname.find(thrown); 
  // typeinfo layout: [vtable ptr][name][bases...]
  u64 off; Obj*o=find(thrown,off); if(!o||o->size<16) return false; u64 vt; memcpy(&vt,o->d,8); string vn; for(auto&g:gname) { if(g.first<=vt&&vt<g.first+64&&g.second.rfind("_ZTVN10__cxxabiv1",0)==0) vn=g.second; }
  if(vn.find("__si_class")!=string::npos){ u64 b; memcpy(&b,o->d+16,8); return tiMatch(b,want,adj); }
  if(vn.find("__vmi_class")!=string::npos){ u32 n; memcpy(&n,o->d+20,4); for(u32 i=0;i<n;i++){ u64 b; i64 fl; memcpy(&b,o->d+24+16*i,8); memcpy(&fl,o->d+32+16*i,8); u64 a2=adj+(fl>>8); if(tiMatch(b,want,a2)){ adj=a2; return true; } } }
  (void)nm; return false;
}
void Engine::unwind(u64 obj,u64 ti){
  // find handler; report uncaught exceptions
  auto clauseMatch=[&](const Ins&lp)->int{ for(auto&c:lp.lp){ if(!c.isFilter){ if(c.tis[0]==0) return -1; u64 adj=0; if(tiMatch(ti,c.tis[0],adj)) return typeids.emplace(c.tis[0],(int)typeids.size()+1).first->second; } else { bool ok=false; for(u64 t:c.tis){ u64 adj=0; if(t&&tiMatch(ti,t,adj)) ok=true; } if(!ok) return -2; } } return 0; };
  bool handled=false; for(int i=(int)S->fr.size()-1;i>=0&&!handled;i--){ auto&fr=S->fr[i]; const Ins&ci=fr.f->code[fr.pc]; if(ci.op==O_CALL&&ci.invoke){ const Ins&lp=fr.f->code[ci.e2.target]; if(clauseMatch(lp)!=0) handled=true; } }
  if(!handled){ string t=gname.count(ti)? gname[ti]: "?"; int st; if(t.rfind("_ZTI",0)==0){ char*d=abi::__cxa_demangle(("_Z"+t.substr(4)).c_str(),nullptr,nullptr,&st); string nm2=t.substr(4); char*d2=abi::__cxa_demangle(t.c_str(),nullptr,nullptr,&st); if(d2){ t=d2; free(d2);} free(d);} error("exception","uncaught exception: "+t); }
  for(;;){ Frame&fr=S->fr.back(); const Ins&ci=fr.f->code[fr.pc];
    if(ci.op==O_CALL&&ci.invoke){ const Ins&lp=fr.f->code[ci.e2.target]; int m=clauseMatch(lp); if(m!=0||lp.cleanup){ S->cur={obj,ti}; doEdge(ci.e2); S->stk[S->fr.back().base+lp.dst]=VC(obj); S->stk[S->fr.back().base+lp.dst+1]=VC((u64)(u32)(m==-1? 1000000: m)); S->fr.back().pc++; return; } }
    for(u32 s:fr.allocs) { dealloc(s); S->freel.push_back(s); } S->stk.resize(fr.base); S->fr.pop_back();
    if(S->fr.empty()) error("exception","uncaught exception");
  }
}
static inline Val& rv(State*S,Frame&fr,vector<Val>&K,int i){ return i>=0? S->stk[fr.base+i]: K[~i]; }
// A branch around a few bit operations (if (bit) sum ^= row) becomes an if-then-else term instead of two paths, when
// both arms are short, have no side effects and meet again.
bool Engine::mergeArms(const Ins&I,Expr*cond){
  Frame&fr=S->fr.back(); Fn*f=fr.f; struct Arm { std::unordered_map<int,Val> ov; vector<std::pair<u32,vector<std::pair<int,Val>>>> joins; std::unordered_set<int> bits; vector<std::pair<int,u8>> ws; } arm[2];
  std::unordered_map<int,u8> wd;
  for(int side=0;side<2;side++){ Arm&m=arm[side]; auto get=[&](int i)->Val{ if(i<0) return K[~i]; auto it=m.ov.find(i); return it!=m.ov.end()? it->second: S->stk[fr.base+i]; };
    const Edge*e= side==0? &I.e1: &I.e2; u32 pc=0; int left=16; bool go=true;
    while(go&&e){ vector<std::pair<int,Val>> t; vector<int> src; for(u32 i=0;i<e->nmv;i++){ Mv&q=f->mvs[e->mv+i]; t.push_back({q.dst,get(q.src)}); wd[q.dst]=q.w; src.push_back(q.src); }
      m.joins.push_back({e->target,t}); if(m.joins.size()>3) break;
      { std::unordered_set<int> nb; for(size_t i=0;i<t.size();i++) if(m.bits.count(src[i])) nb.insert(t[i].first); for(auto&q:t){ m.ov[q.first]=q.second; m.bits.erase(q.first); } for(int b:nb) m.bits.insert(b); }
      pc=e->target; e=nullptr;
      while(left-->0){ const Ins&J=f->code[pc]; bool ok=true;
        switch(J.op){
          case O_BIN: { unsigned o=J.sub; if(o==L::Instruction::UDiv||o==L::Instruction::SDiv||o==L::Instruction::URem||o==L::Instruction::SRem){ ok=false; break; } m.ov[J.dst]=bin(o,J.w,get(J.a),get(J.b)); if(o==L::Instruction::And||o==L::Instruction::Or||o==L::Instruction::Xor||o==L::Instruction::Shl||o==L::Instruction::LShr) m.bits.insert(J.dst); break; }
          case O_ICMP: m.ov[J.dst]=icmp(J.sub,J.w,get(J.a),get(J.b)); break;
          case O_CAST: { Val a=get(J.a); Val r; if(!a.e) r=VC(J.sub==L::Instruction::SExt? (u64)sx(a.c,J.w2)&mask(J.w): a.c&mask(J.w)); else if(J.w==J.w2) r=a; else if(J.w<J.w2) r=VE(mkExtract(a.e,0,J.w)); else r=VE(J.sub==L::Instruction::SExt? mkSext(a.e,J.w): mkZext(a.e,J.w)); m.ov[J.dst]=r; if(m.bits.count(J.a)) m.bits.insert(J.dst); break; }
          case O_GEP: { Val q=get(J.a); ok=!q.e; u64 r=q.c+J.k; for(auto&g:J.gi){ Val x=get(g.op); if(x.e) ok=false; else r+=(u64)sx(x.c,g.w)*g.scale; } if(ok) m.ov[J.dst]=VC(r); break; }
          case O_LOAD: { Val q=get(J.a); u64 off; Obj*o= q.e? nullptr: find(q.c,off); ok= o&&o->d&&off<=o->size&&(u64)J.k<=o->size-off&&!(o->un&&memchr(o->un+off,1,J.k)); if(ok) m.ov[J.dst]=load(q,(int)J.k,J.w); break; }
          case O_BR: e=&J.e1; break;
          case O_CBR: { Val c=get(J.a); if(c.e) ok=false; else e= c.c? &J.e1: &J.e2; break; }
          default: ok=false; }
        if(!ok){ go=false; break; } if(e) break; pc++; }
      if(left<=0) break; } }
  for(auto&j0:arm[0].joins) for(auto&j1:arm[1].joins) if(j0.first==j1.first){ auto&a=j0.second; auto&b=j1.second; if(a.size()!=b.size()) return false;
    vector<std::pair<int,Val>> r; bool any=false;
    for(size_t i=0;i<a.size();i++){ if(a[i].first!=b[i].first) return false; Val x=a[i].second,y=b[i].second; if((x.e==nullptr&&y.e==nullptr&&x.c==y.c)||(x.e&&x.e==y.e)){ r.push_back({a[i].first,x}); continue; }
      int w=wd[a[i].first]; if(w==0) return false; bool bitop=false; for(int k=0;k<2;k++) for(u32 q=0;q<f->mvs.size()&&!bitop;q++) if(f->mvs[q].dst==a[i].first&&arm[k].bits.count(f->mvs[q].src)) bitop=true;
      if(!bitop) return false; any=true; Expr*ex=EX(x,w),*ey=EX(y,w),*d=mkXor(ex,ey); r.push_back({a[i].first,VE(isC(d)? mkXor(ey,mkIte(cond,d,mkConst(0,w))): mkIte(cond,ex,ey))}); /* x^k or x: kept in the linear form x ^ (cond? k: 0) */ }
    if(!any) return false;
    for(auto&q:r) S->stk[fr.base+q.first]=q.second; fr.pc=j0.first; merged++; return true; }
  return false;
}
void Engine::run(State*s){
  S=s;
  try{
    for(;;){ step(); }
  } catch(PathEnd&p){
    if(p.why==0&&((paths+1)&paths)==0&&samples.size()<12){ vector<std::pair<InRec,u64>> v; u64 st=++g_stamp; bool un=false; for(auto&i:S->inputs) v.push_back({i,i.e? evalE(i.e,S->model,st): i.c}); for(u64 i=0;i<g_vars.size();i++) if(g_vars[i].kind==1&&S->model.get(i)) un=true; if(!un) samples.push_back(v); }
    if(p.why==0||p.why==1){ paths++; for(auto&r:S->reached) reached[r.first]+=r.second; }
    else if(p.why==2) infeas++;
    if(S->steps>maxsteps) maxsteps=S->steps;
  }
  delete S; S=nullptr;
}
void Engine::step(){
  Frame*fr=&S->fr.back(); 
#define A(i) ((i)>=0? S->stk[fr->base+(i)]: K[~(i)])
#define D(i) S->stk[fr->base+(i)]
  u64 n=0;
  for(;;){
    if((++n&0xFFFF)==0){ steps+=0x10000; S->steps+=0x10000; if(S->steps>maxstepsPath) { limited++; unsupmsg["step limit per path"]++; error("hang","no end within the step limit"); } if(now()-t0>budget||(sh&&sh->stop)) { limited++; unsupported("time budget exhausted"); } }
    const Ins&I=fr->f->code[fr->pc];
    switch(I.op){
      case O_BIN: { const Val&a=A(I.a),&b=A(I.b); if(!a.e&&!b.e){ u64 x=a.c,y=b.c,r; u64 m=mask(I.w); switch(I.sub){ case L::Instruction::Add: r=(x+y)&m; break; case L::Instruction::Sub: r=(x-y)&m; break; case L::Instruction::And: r=x&y; break; case L::Instruction::Or: r=x|y; break; case L::Instruction::Xor: r=x^y; break; case L::Instruction::Mul: r=(x*y)&m; break; case L::Instruction::Shl: r=y>=I.w?0:(x<<y)&m; break; case L::Instruction::LShr: r=y>=I.w?0:x>>y; break; default: r=bin(I.sub,I.w,a,b).c; } D(I.dst)=VC(r); } else { Val r=bin(I.sub,I.w,a,b); D(I.dst)=r; } fr->pc++; break; }
      case O_ICMP: { Val r=icmp(I.sub,I.w,A(I.a),A(I.b)); D(I.dst)=r; fr->pc++; break; }
      case O_FBIN: { Val a=A(I.a),b=A(I.b); EOp op= I.sub==L::Instruction::FAdd? E_FADD: I.sub==L::Instruction::FSub? E_FSUB: I.sub==L::Instruction::FMul? E_FMUL: E_FDIV; Val r; if(!a.e&&!b.e) r=VC(evalOp(op,I.w,I.w,0,a.c,b.c,0)); else r=VE(mkFBin(op,EX(a,I.w),EX(b,I.w))); D(I.dst)=r; fr->pc++; break; }
      case O_FCMP: { Val a=A(I.a),b=A(I.b); Expr*x=EX(a,I.w),*y=EX(b,I.w); unsigned p=I.sub; bool un=p&8; p&=7; // bits: 1 eq 2 gt 4 lt 8 uno
        Expr*r=F1(); if(I.sub==L::CmpInst::FCMP_TRUE) r=T1(); else if(I.sub==L::CmpInst::FCMP_ORD) r=mkNot(mkFBin(E_FUNO,x,y)); else if(I.sub==L::CmpInst::FCMP_UNO) r=mkFBin(E_FUNO,x,y);
        else { switch(p){ case 1: r=mkFBin(E_FEQ,x,y); break; case 2: r=mkFBin(E_FLT,y,x); break; case 3: r=mkFBin(E_FLE,y,x); break; case 4: r=mkFBin(E_FLT,x,y); break; case 5: r=mkFBin(E_FLE,x,y); break; case 6: r=mkOr(mkFBin(E_FLT,x,y),mkFBin(E_FLT,y,x)); break; default: break; } if(un) r=mkOr(r,mkFBin(E_FUNO,x,y)); }
        D(I.dst)=VE(r); fr->pc++; break; }
      case O_FNEG: { Val a=A(I.a); u64 sb=1ull<<(I.w-1); Val r; if(!a.e) r=VC(a.c^sb); else r=VE(mkXor(a.e,mkConst(sb,I.w))); D(I.dst)=r; fr->pc++; break; }
      case O_LOAD: { Val p=A(I.a); Val r=load(p,(int)I.k,I.w); D(I.dst)=r; fr->pc++; break; }
      case O_STORE: { store(A(I.a),(int)I.k,I.w,A(I.b)); fr->pc++; break; }
      case O_LOADAGG: { Val p=A(I.a); VV r; for(auto&s:I.sc) r.push_back(load(p.e? VE(mkAdd(p.e,mkConst(s.off,64))): VC(p.c+s.off),s.bytes,s.w)); for(size_t i=0;i<r.size();i++) D(I.dst+(int)i)=r[i]; fr->pc++; break; }
      case O_STOREAGG: { Val p=A(I.a); int j=0; for(auto&s:I.sc){ int ix= I.b>=0? I.b+j: ~(~I.b+j); j++; store(p.e? VE(mkAdd(p.e,mkConst(s.off,64))): VC(p.c+s.off),s.bytes,s.w,A(ix)); } fr->pc++; break; }
      case O_GEP: { Val p=A(I.a); bool sy=p.e; for(auto&g:I.gi) if(A(g.op).e) sy=true;
        if(!sy){ u64 r=p.c+I.k; for(auto&g:I.gi) r+=(u64)sx(A(g.op).c,g.w)*g.scale; D(I.dst)=VC(r); }
        else { Expr*r=mkConst(I.k,64); for(auto&g:I.gi){ Expr*x=EX(A(g.op),g.w); r=mkAdd(r,mkMul(mkSext(x,64),mkConst(g.scale,64))); } r=mkAdd(r,EX(p,64)); D(I.dst)=VE(r); } fr->pc++; break; }
      case O_ALLOCA: { u64 cnt=concretize(A(I.a)); u32 s=newObj(I.k*cnt,K_STACK,true); fr->allocs.push_back(s); D(I.dst)=VC(mkaddr(s,S->R(s)->gen)); fr->pc++; break; }
      case O_CAST: { Val a=A(I.a); Val r; if(!a.e){ r=VC(I.sub==L::Instruction::SExt? (u64)sx(a.c,I.w2)&mask(I.w): a.c&mask(I.w)); } else { Expr*e=a.e; if(I.w==I.w2) r=a; else if(I.w<I.w2) r=VE(mkExtract(e,0,I.w)); else r=VE(I.sub==L::Instruction::SExt? mkSext(e,I.w): mkZext(e,I.w)); } D(I.dst)=r; fr->pc++; break; }
      case O_FCAST: { Val a=A(I.a); EOp op; switch(I.sub){ case L::Instruction::SIToFP: op=E_SITOFP; break; case L::Instruction::UIToFP: op=E_UITOFP; break; case L::Instruction::FPToSI: op=E_FPTOSI; break; case L::Instruction::FPToUI: op=E_FPTOUI; break; default: op=E_FPCVT; } Val r; if(!a.e) r=VC(evalOp(op,I.w,I.w2,0,a.c,0,0)); else r=VE(mkFUn(op,I.w,a.e)); D(I.dst)=r; fr->pc++; break; }
      case O_MOVE: { if(I.nret==1){ Val t=A(I.a); D(I.dst)=t; } else { VV t; for(int j=0;j<I.nret;j++) t.push_back(A(I.a>=0? I.a+j: ~(~I.a+j))); for(int j=0;j<I.nret;j++) D(I.dst+j)=t[j]; } fr->pc++; break; }
      case O_INSERTV: { VV t; for(int j=0;j<I.nret;j++) t.push_back(A(I.a>=0? I.a+j: ~(~I.a+j))); for(int j=0;j<I.c;j++) t[I.k+j]=A(I.b>=0? I.b+j: ~(~I.b+j)); for(int j=0;j<I.nret;j++) D(I.dst+j)=t[j]; fr->pc++; break; }
      case O_SELECT: { Val c=A(I.a); VV t; for(int j=0;j<I.nret;j++){ const Val&x=A(I.b>=0? I.b+j: ~(~I.b+j)),&y=A(I.c>=0? I.c+j: ~(~I.c+j)); if(!c.e) t.push_back(c.c? x: y); else t.push_back(VE(mkIte(c.e,EX(x,I.retw[j]),EX(y,I.retw[j])))); } for(int j=0;j<I.nret;j++) D(I.dst+j)=t[j]; fr->pc++; break; }
      case O_BR: doEdge(I.e1); break;
      case O_CBR: { Val c=A(I.a); if(!c.e){ doEdge(c.c? I.e1: I.e2); break; }
        Expr*e=c.e; bool side=evalE(e,S->model); Expr*other= side? mkNot(e): e; Expr*mine= side? e: mkNot(e);
        if(inPC(mine)){ doEdge(side? I.e1: I.e2); break; }
        Model m; int r=check(other,&m);
        if(r==1&&mergeArms(I,e)) break;
        if(r==1){ State*ns=new State(*S); forks++; State*o=S; ns->model=m; S=ns; addPC(other); doEdge(side? I.e2: I.e1); S=o; push(ns); addPC(mine); }
        else if(r<0){ unsup++; unsupmsg["solver unknown: branch"]++; addPC(mine); }
        else addPC(mine);   // implied; remembered for later look-ups
        fr=&S->fr.back(); doEdge(side? I.e1: I.e2); break; }
      case O_SWITCH: { Val c=A(I.a); if(!c.e){ const Edge*e=&I.e1; for(auto&p:I.cases) if(p.first==c.c){ e=&p.second; break; } doEdge(*e); break; }
        // group cases by identical edge effect
        struct G { Expr*cond; const Edge*e; }; vector<G> gs; Expr*anyc=F1();
        auto same=[&](const Edge&x,const Edge&y){ if(x.target!=y.target||x.nmv!=y.nmv) return false; for(u32 i=0;i<x.nmv;i++){ auto&p=fr->f->mvs[x.mv+i],&q=fr->f->mvs[y.mv+i]; if(p.dst!=q.dst) return false; if(p.src==q.src) continue; if(p.src>=0||q.src>=0) return false; Val&u=K[~p.src],&v=K[~q.src]; if(u.e||v.e||u.c!=v.c) return false; } return true; };
        Expr*X; vector<u64> xv; bool small=tabOf(c.e,X,xv,65536);
        vector<std::pair<const Edge*,vector<u64>>> gv; for(auto&p:I.cases){ bool f=false; for(auto&g:gv) if(same(*g.first,p.second)){ g.second.push_back(p.first); f=true; break; } if(!f) gv.push_back({&p.second,{p.first}}); }
        for(auto&g:gv){ Expr*cond=F1(); if(small){ std::unordered_set<u64> st(g.second.begin(),g.second.end()); vector<u64> b(xv.size()); for(size_t i=0;i<xv.size();i++) b[i]=st.count(xv[i]); cond=mkTab(X,std::move(b),1); } else for(u64 v:g.second) cond=mkOr(cond,mkEq(c.e,mkConst(v,I.w))); gs.push_back({cond,g.first}); anyc=mkOr(anyc,cond); }
        gs.push_back({mkNot(anyc),&I.e1});
        int mine=-1; vector<std::pair<int,Model>> feas; u64 st=++g_stamp; for(size_t i=0;i<gs.size();i++){ if(evalE(gs[i].cond,S->model,st)) { mine=(int)i; } }
        for(size_t i=0;i<gs.size();i++) if((int)i!=mine&&!(isC(gs[i].cond)&&!gs[i].cond->k)){ Model m; int r=check(gs[i].cond,&m); if(r==1) feas.push_back({(int)i,m}); else if(r<0){ unsup++; unsupmsg["solver unknown: switch"]++; } }
        for(auto&f:feas){ State*ns=new State(*S); forks++; State*o=S; ns->model=f.second; S=ns; addPC(gs[f.first].cond); doEdge(*gs[f.first].e); S=o; push(ns); }
        addPC(gs[mine].cond); fr=&S->fr.back(); doEdge(*gs[mine].e); break; }
      case O_RET: { VV t; for(int j=0;j<I.nret;j++) t.push_back(A(I.a>=0? I.a+j: ~(~I.a+j))); for(u32 s:fr->allocs) { dealloc(s); S->freel.push_back(s); } u32 base=fr->base; S->fr.pop_back(); S->stk.resize(base); if(S->fr.empty()){ S->steps+=n&0xFFFF; steps+=n&0xFFFF; throw PathEnd{0}; } fr=&S->fr.back(); const Ins&ci=fr->f->code[fr->pc]; for(int j=0;j<I.nret&&j<ci.nret;j++) D(ci.dst+j)=t[j]; if(ci.invoke) doEdge(ci.e1); else fr->pc++; break; }
      case O_CALL: {
        Fn*f=I.callee; VV args; args.reserve(I.args.size()); for(auto&p:I.args) args.push_back(A(p.first));
        if(!f) f=resolveFn(A(I.a));
        if(f->bi){ VV ret; try { f->bi(*this,I,args,ret); } catch(Unwind&){ fr=&S->fr.back(); break; } fr=&S->fr.back(); const Ins&I2=fr->f->code[fr->pc]; for(int j=0;j<I2.nret&&j<(int)ret.size();j++) D(I2.dst+j)=ret[j]; if(I2.invoke) doEdge(I2.e1); else fr->pc++; break; }
        if(!f->defined) unsupported("call to unmodelled function "+f->name);
        u64 va=0; if(f->vararg){ if(!f->compiled) compile(f); size_t extra=args.size()>(size_t)f->nargs? args.size()-f->nargs: 0; va=alloc(8*extra+8,K_STACK,true); S->fr.back().allocs.push_back((va>>24)&0xFFFFFF); for(size_t i=0;i<extra;i++){ Val v=args[f->nargs+i]; int w=I.args[f->nargs+i].second; if(v.e&&w<64) v=VE(mkZext(v.e,64)); storeC(va+8*i,8,64,v); } }
        pushFrame(f,args,va); fr=&S->fr.back(); break; }
      case O_UNREACH: error("unreachable","reached code that the program assumes unreachable");
      case O_LPAD: fr->pc++; break;
      case O_RESUME: { u64 obj=A(I.a).c; Exc e=S->excs[obj]; unwind(e.obj,e.ti); fr=&S->fr.back(); break; }
      case O_ARMW: { Val p=A(I.a),v=A(I.b); Val old=load(p,(I.w+7)/8,I.w); Val nv; switch((L::AtomicRMWInst::BinOp)I.sub){ case L::AtomicRMWInst::Xchg: nv=v; break; case L::AtomicRMWInst::Add: nv=bin(L::Instruction::Add,I.w,old,v); break; case L::AtomicRMWInst::Sub: nv=bin(L::Instruction::Sub,I.w,old,v); break; case L::AtomicRMWInst::And: nv=bin(L::Instruction::And,I.w,old,v); break; case L::AtomicRMWInst::Or: nv=bin(L::Instruction::Or,I.w,old,v); break; default: unsupported("atomicrmw"); } store(p,(I.w+7)/8,I.w,nv); D(I.dst)=old; fr->pc++; break; }
      case O_CMPXCHG: { Val p=A(I.a); Val old=load(p,(I.w+7)/8,I.w); u64 o=concretize(old),c=concretize(A(I.b)); if(o==c) store(p,(I.w+7)/8,I.w,A(I.c)); D(I.dst)=VC(o); D(I.dst+1)=VC(o==c); fr->pc++; break; }
      case O_NOP: fr->pc++; break;
      case O_UNSUP: default: unsupported("instruction "+I.s);
    }
  }
}
#include "builtins.h"

// ================================================================= exploration
static string jesc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
void Engine::report(const string&path){
  FILE*f=fopen((path+".tmp").c_str(),"w"); if(!f) return;
  fprintf(f,"{\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"steps\":%llu,\"maxsteps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cachehits\":%llu,\"asserts\":%llu,\"asserts_trivial\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"unsupported\":%llu,\"limited\":%llu,\"left\":%zu,\"domhits\":%llu,\"tthits\":%llu,\"spawned\":%llu,\n",(unsigned long long)paths,(unsigned long long)infeas,(unsigned long long)forks,(unsigned long long)steps,(unsigned long long)maxsteps,(unsigned long long)queries,(unsigned long long)qsat,(unsigned long long)qunsat,(unsigned long long)qunknown,(unsigned long long)cachehits,(unsigned long long)asserts,(unsigned long long)assertsTriv,solvert,now()-t0,(unsigned long long)unsup,(unsigned long long)limited,work.size(),(unsigned long long)domhits,(unsigned long long)tthits,(unsigned long long)spawned);
  fprintf(f,"\"unsupmsg\":{"); bool c=false; for(auto&m:unsupmsg){ fprintf(f,"%s\"%s\":%llu",c?",":"",jesc(m.first).c_str(),(unsigned long long)m.second); c=true; } fprintf(f,"},\n\"reached\":{"); c=false; for(auto&m:reached){ fprintf(f,"%s\"%s\":%llu",c?",":"",jesc(m.first).c_str(),(unsigned long long)m.second); c=true; }
  fprintf(f,"},\n\"functions\":["); c=false; for(auto&p:fns) if(p.second->hits&&p.second->compiled&&p.second->name.find("6redsea")!=string::npos){ fprintf(f,"%s\"%s\"",c?",":"",jesc(p.second->name).c_str()); c=true; }
  fprintf(f,"],\n\"samples\":["); c=false; for(auto&v:samples){ fprintf(f,"%s[",c?",\n":""); for(size_t i=0;i<v.size();i++) fprintf(f,"%s[\"%s\",%d,%llu]",i?",":"",jesc(v[i].first.name).c_str(),v[i].first.w,(unsigned long long)v[i].second); fprintf(f,"]"); c=true; }
  fprintf(f,"],\n\"errors\":["); c=false; for(auto&e:errs){ fprintf(f,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"uninit\":%s,\"inputs\":[",c?",\n":"",jesc(e.kind).c_str(),jesc(e.msg).c_str(),jesc(e.where).c_str(),e.uninit?"true":"false"); for(size_t i=0;i<e.inputs.size();i++) fprintf(f,"%s[\"%s\",%d,%llu]",i?",":"",jesc(e.inputs[i].name).c_str(),e.inputs[i].w,(unsigned long long)e.vals[i]); fprintf(f,"],\"notes\":["); for(size_t i=0;i<e.notes.size();i++) fprintf(f,"%s[\"%s\",%llu]",i?",":"",jesc(e.notes[i].first).c_str(),(unsigned long long)e.notes[i].second); fprintf(f,"]}"); c=true; }
  fprintf(f,"]}\n"); fclose(f); rename((path+".tmp").c_str(),path.c_str());
}
void Engine::maybeSplit(){
  // share the work list with other processes while tokens are available
  while(work.size()>=2&&sh){
    if(now()-lastSplit<splitIv) return;
    int a=sh->active; if(a>=sh->maxp) return; if(!__sync_bool_compare_and_swap(&sh->active,a,a+1)) continue;
    fflush(nullptr); lastSplit=now(); pid_t p=fork();
    if(p<0){ __sync_fetch_and_sub(&sh->active,1); return; } if(p>0) spawned++;
    size_t half=work.size()/2;
    if(p==0){ // child: takes the oldest half
      isRoot=false; int id=__sync_fetch_and_add(&sh->nextout,1); outfile=outbase+"."+std::to_string(id); lastSplit=now(); 
      vector<State*> mine(work.begin(),work.begin()+half); for(size_t i=half;i<work.size();i++) { /* leak: owned by parent */ } work=mine;
      steps=paths=forks=queries=qsat=qunsat=qunknown=cachehits=asserts=assertsTriv=infeas=unsup=limited=0; solvert=0; domhits=spawned=tthits=0; reached.clear(); unsupmsg.clear(); errs.clear(); samples.clear(); for(auto&q:fns) q.second->hits=0;
    } else { for(size_t i=0;i<half;i++) delete work[i]; work.erase(work.begin(),work.begin()+half); }
    return;
  }
}
void Engine::explore(){
  while(!work.empty()){
    if(now()-t0>budget||(sh&&sh->stop)){ limited+=work.size(); unsupmsg["time budget exhausted"]+=work.size(); break; }
    if(sh&&sh->errs>=maxerr*4){ limited+=work.size(); unsupmsg["error limit reached"]+=work.size(); break; }
    maybeSplit();
    State*s=work.back(); work.pop_back(); run(s);
  }
}
int main(int argc,char**argv){
  // large native stack for recursive expression walks
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(1ul<<30)&&!getenv("SYMX_STACK")){ rl.rlim_cur= rl.rlim_max==RLIM_INFINITY? (2ul<<30): std::min<rlim_t>(rl.rlim_max,2ul<<30); setrlimit(RLIMIT_STACK,&rl); setenv("SYMX_STACK","1",1); execv("/proc/self/exe",argv); }
  Engine E; string bc,entry="harness"; int par=1; string tok;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); }; if(a=="-e") entry=nx(); else if(a=="-o") E.outfile=nx(); else if(a=="-t") E.budget=atof(nx().c_str()); else if(a=="-j") par=atoi(nx().c_str()); else if(a=="-v") E.verbose=true; else if(a=="-s") E.maxstepsPath=strtoull(nx().c_str(),0,10); else if(a=="-T") tok=nx(); else if(a=="-m") E.memlimMB=atol(nx().c_str()); else if(a=="-p"){ string kv=nx(); size_t p=kv.find('='); E.params[kv.substr(0,p)]=kv.substr(p+1); } else bc=a; }
  if(E.memlimMB>0){ struct rlimit ml; ml.rlim_cur=ml.rlim_max=(rlim_t)E.memlimMB<<20; setrlimit(RLIMIT_DATA,&ml); }
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); });
  E.newSlv();
  E.slv2=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,E.slv2);
  L::SMDiagnostic err; E.M=L::parseIRFile(bc,err,E.ctx); if(!E.M){ err.print("symx",L::errs()); return 3; } E.DL=&E.M->getDataLayout();
  registerBuiltins(E); E.outbase=E.outfile;
  E.t0=now(); E.layout();
  // global constructors
  vector<std::pair<int,L::Function*>> ctors; if(auto g=E.M->getGlobalVariable("llvm.global_ctors")){ if(auto ca=L::dyn_cast<L::ConstantArray>(g->getInitializer())) for(auto&o:ca->operands()){ auto cs=L::cast<L::ConstantStruct>(o); ctors.push_back({(int)L::cast<L::ConstantInt>(cs->getOperand(0))->getZExtValue(),L::cast<L::Function>(cs->getOperand(1)->stripPointerCasts())}); } }
  std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){return a.first<b.first;});
  L::Function*H=E.M->getFunction(entry); if(!H){ fprintf(stderr,"symx: no entry %s\n",entry.c_str()); return 3; }
  State*s=E.S;
  for(auto&c:ctors){ VV a; E.pushFrame(E.fnOf(c.second),a,0); try{ E.step(); } catch(PathEnd&p){ if(p.why!=0){ fprintf(stderr,"symx: global constructor %s failed\n",c.second->getName().str().c_str()); for(auto&e:E.errs) fprintf(stderr,"  %s %s at %s\n",e.kind.c_str(),e.msg.c_str(),e.where.c_str()); for(auto&m:E.unsupmsg) fprintf(stderr,"  %s\n",m.first.c_str()); return 3; } } }
  double tinit=now()-E.t0; (void)tinit; u64 initsteps=E.steps; E.steps=0; s->steps=0;
  // constant data written by ctors stays as is
  VV a; E.pushFrame(E.fnOf(H),a,0); E.work.push_back(s); E.t0=now();
  if(tok.size()){ int fd=open(tok.c_str(),O_RDWR|O_CREAT,0600); if(ftruncate(fd,sizeof(Shared))){}; E.sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); }
  else { E.sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); E.sh->active=1; E.sh->maxp=par; }
  int done[2]; if(pipe(done)){}  // children inherit the write end: EOF when all have exited
  try { E.explore(); } catch(std::bad_alloc&){ E.limited++; E.unsupmsg["out of memory"]++; }
  E.report(E.outfile);
  if(!E.isRoot){ __sync_fetch_and_sub(&E.sh->active,1); _exit(0); }
  if(E.verbose) fprintf(stderr,"init steps %llu, paths %llu steps %llu queries %llu solver %.2fs wall %.2fs\n",(unsigned long long)initsteps,(unsigned long long)E.paths,(unsigned long long)E.steps,(unsigned long long)E.queries,E.solvert,now()-E.t0);
  close(done[1]); char b; __sync_fetch_and_sub(&E.sh->active,1); while(read(done[0],&b,1)>0){}
  while(waitpid(-1,nullptr,0)>0){}
  _exit(0);
}
