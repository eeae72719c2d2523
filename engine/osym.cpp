#include <fstream>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
// osym: a symbolic executor for LLVM IR (see DESIGN.md).
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <set>
#include <unordered_set>
#include <unistd.h>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;

Pool P; Mdd D;
static z3::context *Z;
typedef std::chrono::steady_clock Clk;
static Clk::time_point T0;
static double now(){ return std::chrono::duration<double>(Clk::now()-T0).count(); }
static double optTime=1e9; static u64 optSteps=20000000; static int optMaxViol=12; static bool optVerbose=false; static bool optLeak=false; static bool optOverflow=false;
static u64 optMaxStates=~0ull; static double optMem=0;
static std::vector<std::string> optPrio; static std::string optOut; static std::set<std::string> optMergeFns; static bool optMergeAll=false; static bool optCoverage=true;

// ---------------------------------------------------------------- program
struct Opn { int r; u64 c; };             // r>=0 register, -1 constant, -2 undef
enum IK : u8 { I_BIN,I_CMP,I_CAST,I_SELECT,I_LOAD,I_STORE,I_GEP,I_ALLOCA,I_BR,I_CBR,I_SWITCH,I_RET,I_CALL,I_NATIVE,I_UNREACH,I_FBIN,I_FCMP,I_FCAST,I_FREEZE,I_BAD,I_NOP,I_FNEG };
struct Func;
struct Inst {
  IK k; u8 op=0,w=0,wa=0; int dst=-1; Opn a{-1,0},b{-1,0},c{-1,0}; std::vector<Opn> args; std::vector<u64> scale; std::vector<u8> aw;
  int t1=-1,t2=-1; std::vector<std::pair<u64,int>> cases; Func*callee=nullptr; int native=-1; u64 imm=0; int line=0; std::string txt; bool indirect=false; bool nsw=false,nuw=false; std::vector<int>* liveAfter=nullptr; bool fpArg=false; std::vector<u8> isfp;
};
struct Phi { int dst; Opn src; };
struct Blk { std::vector<Inst> ins; std::map<int,std::vector<Phi>> phis; bool merge=false; std::vector<int> live; };
struct Func { void*llf=nullptr; std::string name; int id; u64 addr; std::vector<Blk> bl; int nregs=0,nargs=0; bool decl=false; bool vararg=false; std::string file; bool used=false; int line=0; std::vector<u8> argfp; };
static std::vector<Func*> funcs; static std::map<std::string,Func*> funcByName; static std::unordered_map<u64,Func*> funcByAddr;

// ---------------------------------------------------------------- memory
struct Obj { u64 base; u32 size; u8 kind; int ref=0; u8*d; u8*st; E*sym=nullptr; u64 h=0; bool hv=false; const char*name="";  // st: 0 concrete 1 undef 2 symbolic
  Obj(u64 b,u32 s,u8 k,bool undef):base(b),size(s),kind(k){ d=(u8*)calloc(s+1,1); st=(u8*)calloc(s+1,1); if(undef) memset(st,1,s); }
  Obj(const Obj&o):base(o.base),size(o.size),kind(o.kind),name(o.name){ d=(u8*)malloc(size+1); st=(u8*)malloc(size+1); memcpy(d,o.d,size+1); memcpy(st,o.st,size+1); if(o.sym){ sym=(E*)malloc(sizeof(E)*(size+1)); memcpy(sym,o.sym,sizeof(E)*(size+1)); } }
  ~Obj(){ free(d); free(st); free(sym); }
  u64 hash(){ if(hv) return h; u64 x=base*0x9e3779b97f4a7c15ull+size; for(u32 i=0;i<size;i++){ u64 v= st[i]==0?d[i]: st[i]==1?0x1ff: 0x10000ull+sym[i]->id; x=(x^v)*0xff51afd7ed558ccdull; x^=x>>31; } h=x; hv=true; return h; } };
struct Ref { Obj*p; Ref(Obj*o=nullptr):p(o){ if(p) p->ref++; } Ref(const Ref&o):p(o.p){ if(p) p->ref++; } Ref(Ref&&o):p(o.p){o.p=nullptr;} ~Ref(){ if(p&&--p->ref==0) delete p; }
  Ref& operator=(const Ref&o){ if(o.p) o.p->ref++; if(p&&--p->ref==0) delete p; p=o.p; return *this; } Ref& operator=(Ref&&o){ std::swap(p,o.p); return *this; } Obj*operator->()const{return p;} };
enum { OK_CONST=0, OK_GLOB=1, OK_STACK=2, OK_HEAP=3 };
static const u64 A_FN=0x1000000, A_CONST=0x10000000, A_GLOB=0x40000000, A_STACK=0x500000000ull, A_HEAP=0x6000000000ull;
static std::vector<Obj*> constObjs; static std::vector<u64> globBase; static std::vector<Ref> globInit; static std::map<std::string,u64> globAddr; static std::map<std::string,int> globIdx;
static u64 nextConst=A_CONST,nextGlob=A_GLOB;

struct V { u64 c; E e; };
struct Frame { Func*f; int bb=0,ip=0,prev=-1; std::vector<V> regs; size_t smark; u64 stop; std::vector<V> va; };
struct State { std::vector<Frame> fr; std::vector<Ref> glob, stk, heap; M pc=1; std::vector<E> res; u64 heapNext=A_HEAP, stackTop=A_STACK; u64 steps=0; bool skipMerge=false; u64 gen=0; std::vector<int> covers; bool resFresh=false; };

// ---------------------------------------------------------------- stats & results
static u64 nInst=0,nForks=0,nMerges=0,nStates=1,nPaths=0,nQueries=0,nFastDec=0,nAsserts=0,nAssertsFolded=0,nEnded=0; static double zTime=0; static double coveredInputs=0;
struct Leaf { M pc; std::vector<E> res; }; static std::map<std::vector<u32>,std::pair<std::vector<E>,M>> leaves; static std::vector<std::pair<std::vector<u32>,M>> dummy;
static std::map<E,M> oblig; // condition -> union of path conditions
static std::map<std::string,u64> covers; static std::map<std::string,u64> assertSites;
struct Viol { std::string kind,msg,fn; int line; std::map<std::string,u64> wit; std::string stack; bool unconf=false; };
static std::vector<Viol> viols; static std::map<std::string,int> violCount; static std::string fatalMsg; static bool incomplete=false; static u64 pendingLeft=0;

// ---------------------------------------------------------------- z3
static std::vector<z3::expr*> zb, zw; static std::unordered_map<M,z3::expr> zmdd; static std::unordered_map<E,z3::expr> zex; static std::map<std::pair<u32,std::string>,z3::expr> zset;
static z3::expr zbyte(u32 i){ while(zb.size()<=i) zb.push_back(new z3::expr(Z->bv_const(P.byteNames[zb.size()].c_str(),8))); return *zb[i]; }
static z3::expr inset(u32 v,const Set256&s0){
  Set256 s=s0&P.byteDom[v]; auto key=std::make_pair(v,std::string((char*)s.w,32)); auto it=zset.find(key); if(it!=zset.end()) return it->second;
  z3::expr x=zbyte(v); z3::expr_vector o(*Z);
  for(int i=0;i<256;){ if(!s.get(i)){i++;continue;} int j=i; while(j+1<256&&s.get(j+1)) j++; if(i==j) o.push_back(x==Z->bv_val(i,8)); else if(i==0&&j==255) o.push_back(Z->bool_val(true)); else o.push_back(z3::uge(x,Z->bv_val(i,8))&&z3::ule(x,Z->bv_val(j,8))); i=j+1; }
  z3::expr r= o.size()==0?Z->bool_val(false):z3::mk_or(o); zset.insert({key,r}); return r; }
static z3::expr zM(M m){ if(m==0) return Z->bool_val(false); if(m==1) return Z->bool_val(true); auto it=zmdd.find(m); if(it!=zmdd.end()) return it->second;
  z3::expr_vector o(*Z); auto ed=D.n[m].ed; u32 v=D.n[m].var; for(auto&e:ed){ z3::expr c=zM(e.second); o.push_back(e.second==1?inset(v,e.first):(inset(v,e.first)&&c)); } z3::expr r=z3::mk_or(o); zmdd.insert({m,r}); return r; }
static z3::expr zBV(E e);
static z3::expr zBool(E e){ return zBV(e)==Z->bv_val(1,1); }
static z3::expr b2v(const z3::expr&b){ return z3::ite(b,Z->bv_val(1,1),Z->bv_val(0,1)); }
static z3::expr zBV(E e){ auto it=zex.find(e); if(it!=zex.end()) return it->second; z3::expr r(*Z);
  switch(e->k){ case K_CONST: r=Z->bv_val((uint64_t)e->val,e->w); break;
  case K_TAB: { std::map<u64,Set256> g; for(int i=0;i<256;i++) if(P.byteDom[e->var].get(i)) g[e->tab->v[i]].set(i);
      // identity table
      bool id=e->w==8; for(int i=0;i<256&&id;i++) if(P.byteDom[e->var].get(i)&&e->tab->v[i]!=(u64)i) id=false;
      if(id){ r=zbyte(e->var); break; }
      bool first=true; for(auto&x:g){ z3::expr c=Z->bv_val((uint64_t)x.first,e->w); if(first){r=c;first=false;} else r=z3::ite(inset(e->var,x.second),c,r); } break; }
  case K_VAR: while(zw.size()<=e->var) zw.push_back(new z3::expr(Z->bv_const(P.wideVars[zw.size()].name.c_str(),P.wideVars[zw.size()].w))); r=*zw[e->var]; break;
  case K_OP: { z3::expr a=zBV(e->a); z3::expr b=e->b?zBV(e->b):a; switch(e->op){
    case O_ADD:r=a+b;break; case O_SUB:r=a-b;break; case O_MUL:r=a*b;break; case O_UDIV:r=z3::udiv(a,b);break; case O_SDIV:r=a/b;break; case O_UREM:r=z3::urem(a,b);break; case O_SREM:r=z3::srem(a,b);break;
    case O_AND:r=a&b;break; case O_OR:r=a|b;break; case O_XOR:r=a^b;break; case O_SHL:r=z3::shl(a,b);break; case O_LSHR:r=z3::lshr(a,b);break; case O_ASHR:r=z3::ashr(a,b);break;
    case O_EQ:r=b2v(a==b);break; case O_NE:r=b2v(a!=b);break; case O_ULT:r=b2v(z3::ult(a,b));break; case O_ULE:r=b2v(z3::ule(a,b));break; case O_UGT:r=b2v(z3::ugt(a,b));break; case O_UGE:r=b2v(z3::uge(a,b));break;
    case O_SLT:r=b2v(a<b);break; case O_SLE:r=b2v(a<=b);break; case O_SGT:r=b2v(a>b);break; case O_SGE:r=b2v(a>=b);break;
    case O_ZEXT:r=z3::zext(a,e->w-e->a->w);break; case O_SEXT:r=z3::sext(a,e->w-e->a->w);break; case O_TRUNC:r=a.extract(e->w-1,0);break; case O_EXTRACT:r=a.extract(e->val+e->w-1,e->val);break;
    case O_ITE:{ z3::expr c=zBV(e->c); r=z3::ite(a==Z->bv_val(1,1),b,c); break;} case O_CONCAT:r=z3::concat(a,b);break; default: abort(); } break; }
  default: fprintf(stderr,"osym: undef in solver\n"); abort(); }
  zex.insert({e,r}); return r; }
static void domains(z3::solver&s){ for(u32 i=0;i<P.byteNames.size();i++) if(!P.byteDom[i].full()) s.add(inset(i,P.byteDom[i])); }
// 1 sat, 0 unsat, -1 unknown
static int solve(M pc,const std::vector<E>&res,E extra,std::map<std::string,u64>*wit,const std::vector<z3::expr>*raw=nullptr){
  double t=now(); nQueries++; z3::solver s(*Z); z3::params p(*Z); p.set("timeout",(unsigned)120000); s.set(p); domains(s); if(pc!=1) s.add(zM(pc)); for(E e:res) s.add(zBool(e)); if(extra) s.add(zBool(extra)); if(raw) for(auto&x:*raw) s.add(x);
  z3::check_result r=s.check(); int ret= r==z3::sat?1:r==z3::unsat?0:-1;
  if(ret==1&&wit){ z3::model m=s.get_model(); for(u32 i=0;i<P.byteNames.size();i++){ z3::expr v=m.eval(zbyte(i),true); (*wit)[P.byteNames[i]]=v.get_numeral_uint64(); } for(u32 i=0;i<P.wideVars.size();i++){ E e=P.wideVar(P.wideVars[i].name,P.wideVars[i].w); z3::expr v=m.eval(zBV(e),true); (*wit)[P.wideVars[i].name]=v.get_numeral_uint64(); } }
  zTime+=now()-t; return ret; }

// ---------------------------------------------------------------- conditions
static std::unordered_map<E,int> compMemo; static std::vector<M> compVal;
static double compCost(E e){ double c=1; int n=0; for(u64 s=e->sup;s;s&=s-1){ c*=P.byteDom[__builtin_ctzll(s)].count(); n++; } return c/256.0; }
static bool compile(E e,M&out){
  if(e->k==K_CONST){ out=e->val?1:0; return true; }
  if(e->wide||e->k==K_UNDEF||e->k==K_OPAQUE) return false;
  if(e->k==K_TAB){ Set256 s; for(int i=0;i<256;i++) if(e->tab->v[i]) s.set(i); out=D.unary(e->var,s); return true; }
  auto it=compMemo.find(e); if(it!=compMemo.end()){ if(it->second<0) return false; out=compVal[it->second]; return true; }
  if(compCost(e)>300000){ compMemo[e]=-1; return false; }
  u32 v=__builtin_ctzll(e->sup); std::map<E,Set256> g; for(int i=0;i<256;i++) if(P.byteDom[v].get(i)) g[P.subst(e,v,i)].set(i);
  std::vector<std::pair<Set256,M>> ed; for(auto&x:g){ M m; if(!compile(x.first,m)){ compMemo[e]=-1; return false; } ed.push_back({x.second,m}); }
  out=D.mk(v,ed); compMemo[e]=compVal.size(); compVal.push_back(out); return true; }

static void endLeaf(State&s){ nEnded++; std::vector<u32> k; for(E e:s.res) k.push_back(e->id); std::sort(k.begin(),k.end()); auto it=leaves.find(k); if(it==leaves.end()) leaves[k]={s.res,s.pc}; else it->second.second=D.orM(it->second.second,s.pc); }

static std::string where(State&s){ std::string r; for(int i=(int)s.fr.size()-1;i>=0&&i>=(int)s.fr.size()-6;i--){ auto&f=s.fr[i]; int ip=f.ip; if(ip>=(int)f.f->bl[f.bb].ins.size()) ip=f.f->bl[f.bb].ins.size()-1; r+=f.f->name+":"+std::to_string(f.f->bl[f.bb].ins[ip].line)+" "; } return r; }
static void violation(State&s,const std::string&kind,const std::string&msg,M pc,E extra=nullptr){
  auto&f=s.fr.back(); int line=f.f->bl[f.bb].ins[std::min<size_t>(f.ip,f.f->bl[f.bb].ins.size()-1)].line; 
  std::string fn=f.f->name; if(fn.rfind("v_",0)==0||f.f->file.find("vlibc")!=std::string::npos) for(int i=(int)s.fr.size()-2;i>=0;i--) if(s.fr[i].f->file.find("vlibc")==std::string::npos){ fn=s.fr[i].f->name; line=s.fr[i].f->bl[s.fr[i].bb].ins[std::min<size_t>(s.fr[i].ip,s.fr[i].f->bl[s.fr[i].bb].ins.size()-1)].line; break; }
  std::string key=kind+"|"+msg+"|"+fn+"|"+std::to_string(line); if(violCount[key]++>=3) return; if((int)viols.size()>=optMaxViol) return;
  Viol v; v.kind=kind; v.msg=msg; v.fn=fn; v.line=line; v.stack=where(s); int r=solve(pc,s.res,extra,&v.wit); if(r==0){ return; } if(r<0){ v.unconf=true; }
  viols.push_back(v); }

struct Abort{ }; // end this path (already accounted)
static std::vector<std::unique_ptr<State>> work;
struct Key{ u64 a,b; bool operator==(const Key&o)const{return a==o.a&&b==o.b;} }; struct KeyH{ size_t operator()(const Key&k)const{return k.a;} };
struct PKey{ u64 p1,p2,seq; bool operator<(const PKey&o)const{ return std::tie(p1,p2,seq)<std::tie(o.p1,o.p2,o.seq);} };
static std::map<PKey,std::unique_ptr<State>> pend; static std::unordered_map<Key,State*,KeyH> pendIdx; static std::unordered_map<State*,Key> pendKey; static std::unordered_map<Key,M,KeyH> visited; static u64 seqNo=0;

static void fatal(State*s,const std::string&m){ if(fatalMsg.empty()) fatalMsg=m+(s?(" at "+where(*s)):""); throw Abort(); }

// Is cond feasible under s (with polarity)? Returns the refined pc; res addition in addRes.
enum Tri{ T_FALSE,T_TRUE,T_BOTH };
static Tri decide(State&s,E c,M&pt,M&pf,bool&asRes){
  M m; asRes=false;
  if(compile(c,m)){ nFastDec++; pt=D.andM(s.pc,m); pf=D.andM(s.pc,D.notM(m));
    if(!s.res.empty()&&pt&&pf){ // byte condition with residual constraints: is each side feasible?
      bool shared=false; for(E r:s.res) if(r->sup) shared=true; if(shared){ if(solve(pt,s.res,nullptr,nullptr)==0) pt=0; else if(solve(pf,s.res,nullptr,nullptr)==0) pf=0; } }
    if(pt&&pf) return T_BOTH; return pt?T_TRUE:T_FALSE; }
  asRes=true; pt=pf=s.pc; E nc=P.notE(c); int a=solve(s.pc,s.res,c,nullptr); if(a==0) return T_FALSE; int b=solve(s.pc,s.res,nc,nullptr); if(b==0) return T_TRUE; return T_BOTH; }

static std::unique_ptr<State> clone(State&s){ nForks++; nStates++; return std::make_unique<State>(s); }

// All feasible (value, pc) pairs of a byte-only expression.
static bool parts(M pc,E e,std::map<u64,M>&out,size_t lim){ if(pc==0) return true; if(e->k==K_CONST){ auto it=out.find(e->val); if(it==out.end()) out[e->val]=pc; else it->second=D.orM(it->second,pc); return out.size()<=lim; }
  u32 v=__builtin_ctzll(e->sup); Set256 feas=D.project(pc,v); std::map<E,Set256> g; for(int i=0;i<256;i++) if(feas.get(i)) g[P.subst(e,v,i)].set(i);
  for(auto&x:g) if(!parts(D.andM(pc,D.unary(v,x.second)),x.first,out,lim)) return false; return true; }

static V getv(Frame&f,const Opn&o,unsigned w){ if(o.r>=0) return f.regs[o.r]; if(o.r==-2) return {0,P.undef[w]}; return {o.c,nullptr}; }
static E toE(const V&v,unsigned w){ return v.e?v.e:P.cst(v.c,w); }
static V toV(E e){ if(e->k==K_CONST) return {e->val,nullptr}; return {0,e}; }

// Make operand o concrete in s, forking as needed. Returns the value for s (which is narrowed).
static u64 conc(State&s,const Opn&o,unsigned w,const char*what){
  Frame&f=s.fr.back(); V v=getv(f,o,w); if(!v.e) return v.c;
  if(v.e->k==K_UNDEF){ violation(s,"uninit",std::string("use of uninitialised value as ")+what,s.pc); endLeaf(s); throw Abort(); }
  if(v.e->k==K_OPAQUE) fatal(&s,std::string("opaque value used as ")+what);
  std::map<u64,M> out;
  if(!v.e->wide){ if(!parts(s.pc,v.e,out,70000)) fatal(&s,"too many values to concretise"); 
    if(!s.res.empty()) for(auto it=out.begin();it!=out.end();){ if(solve(it->second,s.res,nullptr,nullptr)==0) it=out.erase(it); else ++it; }
    bool first=true; u64 ret=0; M keep=0; for(auto&x:out){ if(first){ first=false; ret=x.first; keep=x.second; continue; } auto n=clone(s); n->pc=x.second; n->fr.back().regs[o.r]={x.first,nullptr}; work.push_back(std::move(n)); }
    s.pc=keep; f.regs[o.r]={ret,nullptr}; return ret; }
  // wide: enumerate by solver
  std::vector<u64> vals; std::vector<E> ex=s.res; 
  for(;;){ z3::solver sv(*Z); domains(sv); sv.add(zM(s.pc)); for(E e:ex) sv.add(zBool(e)); nQueries++; double t=now(); auto r=sv.check(); zTime+=now()-t; if(r==z3::unsat) break; if(r!=z3::sat||vals.size()>=64) fatal(&s,std::string("cannot concretise ")+what); u64 x=sv.get_model().eval(zBV(v.e),true).get_numeral_uint64(); vals.push_back(x); ex.push_back(P.op(O_NE,1,v.e,P.cst(x,w))); }
  if(vals.empty()){ throw Abort(); }
  for(size_t i=1;i<vals.size();i++){ auto n=clone(s); n->res.push_back(P.op(O_EQ,1,v.e,P.cst(vals[i],w))); n->fr.back().regs[o.r]={vals[i],nullptr}; work.push_back(std::move(n)); }
  s.res.push_back(P.op(O_EQ,1,v.e,P.cst(vals[0],w))); f.regs[o.r]={vals[0],nullptr}; return vals[0]; }

// ---------------------------------------------------------------- memory access
static Obj* findIn(std::vector<Ref>&v,u64 a,size_t*idx){ size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m]->base<=a) lo=m+1; else hi=m; } if(lo==0) return nullptr; *idx=lo-1; Obj*o=v[lo-1].p; return a<=o->base+o->size?o:nullptr; }
static Obj* lookup(State&s,u64 a,std::vector<Ref>**vec,size_t*idx){ *vec=nullptr;
  if(a>=A_HEAP){ *vec=&s.heap; return findIn(s.heap,a,idx); } if(a>=A_STACK){ *vec=&s.stk; return findIn(s.stk,a,idx); }
  if(a>=A_GLOB){ *vec=&s.glob; return findIn(s.glob,a,idx); }
  if(a>=A_CONST){ size_t lo=0,hi=constObjs.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(constObjs[m]->base<=a) lo=m+1; else hi=m; } if(!lo) return nullptr; Obj*o=constObjs[lo-1]; return a<=o->base+o->size?o:nullptr; }
  return nullptr; }
static std::string describe(State&s,u64 a,Obj*o){ char b[200]; if(!o){ if(a<4096) snprintf(b,200,"null pointer"); else if(a>=A_HEAP&&a<s.heapNext) snprintf(b,200,"freed or out-of-bounds heap memory"); else snprintf(b,200,"invalid pointer"); } else snprintf(b,200,"offset %lld of %u-byte %s object %s",(long long)(a-o->base),o->size,o->kind==OK_HEAP?"heap":o->kind==OK_STACK?"stack":"global",o->name); return b; }
static void badAccess(State&s,u64 a,unsigned n,bool wr,Obj*o,M pc){ violation(s,wr?"oob-write":"oob-read",std::string(wr?"write":"read")+" of "+std::to_string(n)+" byte(s): "+describe(s,a,o),pc); }
static Obj* access(State&s,u64 a,unsigned n,bool wr,std::vector<Ref>**vp=nullptr,size_t*ip=nullptr){
  std::vector<Ref>*v; size_t i=0; Obj*o=lookup(s,a,&v,&i);
  if(!o||a+n>o->base+o->size){ badAccess(s,a,n,wr,o,s.pc); endLeaf(s); throw Abort(); }
  if(wr){ if(!v){ violation(s,"oob-write","write to constant memory",s.pc); endLeaf(s); throw Abort(); } if(o->ref>1){ Obj*c=new Obj(*o); (*v)[i]=Ref(c); o=c; } o->hv=false; }
  if(vp)*vp=v; if(ip)*ip=i; return o; }
static V rdByte(Obj*o,u32 off){ if(o->st[off]==0) return {o->d[off],nullptr}; if(o->st[off]==1) return {0,P.undef[8]}; return {0,o->sym[off]}; }
static void wrByte(Obj*o,u32 off,V v){ if(!v.e){ o->d[off]=(u8)v.c; o->st[off]=0; } else if(v.e->k==K_UNDEF){ o->st[off]=1; o->d[off]=0; } else { if(!o->sym) o->sym=(E*)calloc(o->size+1,sizeof(E)); o->sym[off]=v.e; o->st[off]=2; o->d[off]=0; } }
static V loadObj(Obj*o,u32 off,unsigned w){ unsigned n=(w+7)/8; bool conc=true; for(unsigned i=0;i<n;i++) if(o->st[off+i]){conc=false;break;}
  if(conc){ u64 x=0; memcpy(&x,o->d+off,n); return {x&mask(w),nullptr}; }
  E e=nullptr; for(unsigned i=0;i<n;i++){ if(o->st[off+i]==1) return {0,P.undef[w]}; E b=o->st[off+i]==0?P.cst(o->d[off+i],8):o->sym[off+i]; if(b->k==K_OPAQUE) return {0,P.opaque[w]}; e= e?P.op(O_CONCAT,8*(i+1),b,e):b; }
  if(e->w!=w) e=P.op(O_TRUNC,w,e); return toV(e); }
static void storeObj(Obj*o,u32 off,unsigned w,V v){ unsigned n=(w+7)/8; if(!v.e){ u64 x=v.c&mask(w); memcpy(o->d+off,&x,n); memset(o->st+off,0,n); return; }
  if(v.e->k==K_UNDEF){ memset(o->st+off,1,n); return; }
  E e=v.e; if(e->w!=n*8) e=P.op(O_ZEXT,n*8,e); for(unsigned i=0;i<n;i++) wrByte(o,off+i,toV(n==1?e:P.op(O_EXTRACT,8,e,0,0,8*i))); }
static Obj* newObj(State&s,std::vector<Ref>&v,u64&next,u32 size,u8 kind,bool undef,const char*name){ u64 base=(next+15)&~15ull; Obj*o=new Obj(base,size,kind,undef); o->name=name; next=base+size+32; v.push_back(Ref(o)); return o; }

// ---------------------------------------------------------------- natives
enum { N_MALLOC,N_CALLOC,N_REALLOC,N_FREE,N_MEMCPY,N_MEMSET,N_STACKSAVE,N_STACKRESTORE,N_NOP,N_VBYTES,N_VBYTESDOM,N_VI,N_VRANGE,N_VASSUME,N_VASSERT,N_VCOVER,N_VCONC,N_VHEAP,N_VPOISON,N_VEXIT,N_VASTART,N_ABORT,N_ABS,N_SMAX,N_SMIN,N_UMAX,N_UMIN,N_EXPECT,N_FABS,N_VPRINT,N_VOPAQUE,N_VSETI64, N_CTLZ, N_VISC, N_BSWAP, N_VAEND, N_VOBJLEFT };
static const std::map<std::string,int> natives={{"malloc",N_MALLOC},{"calloc",N_CALLOC},{"realloc",N_REALLOC},{"free",N_FREE},{"v_bytes",N_VBYTES},{"v_bytes_dom",N_VBYTESDOM},{"v_i32",N_VI},{"v_i64",N_VI},{"v_range",N_VRANGE},{"v_assume",N_VASSUME},{"v_assert",N_VASSERT},{"v_cover",N_VCOVER},{"v_conc",N_VCONC},{"v_heap_live",N_VHEAP},{"v_poison",N_VPOISON},{"v_end_path",N_VEXIT},{"abort",N_ABORT},{"__assert_fail",N_ABORT},{"v_print",N_VPRINT},{"v_is_concrete",N_VISC},{"v_obj_left",N_VOBJLEFT}};

static std::string cstr(State&s,u64 a){ std::string r; for(int i=0;i<300;i++){ std::vector<Ref>*v; size_t ix; Obj*o=lookup(s,a+i,&v,&ix); if(!o||a+i>=o->base+o->size||o->st[a+i-o->base]) break; char c=o->d[a+i-o->base]; if(!c) break; r+=c; } return r; }

static void decodeLazy(Func*f);
static void doCallFrame(State&s,Func*fn,std::vector<V>&args,int){ 
  if(s.fr.size()>400){ violation(s,"recursion","call depth over 400 frames",s.pc); endLeaf(s); throw Abort(); }
  if(fn->bl.empty()) decodeLazy(fn);
  fn->used=true; Frame f; f.f=fn; f.regs.resize(fn->nregs,V{0,nullptr}); for(int i=0;i<fn->nargs&&i<(int)args.size();i++) f.regs[i]=args[i]; if(fn->vararg) f.va=args; f.smark=s.stk.size(); f.stop=s.stackTop; s.fr.push_back(std::move(f)); }

static Key keyOf(State&s){ u64 a=0x1234567,b=0x7654321; auto add=[&](u64 x){ a=(a^x)*0xff51afd7ed558ccdull; a^=a>>33; b=(b+x)*0xc4ceb9fe1a85ec53ull; b^=b>>29; };
  for(size_t i=0;i<s.fr.size();i++){ Frame&f=s.fr[i]; add(f.f->id); add(f.bb); add(f.ip); const std::vector<int>*lv; if(i+1==s.fr.size()) lv=&f.f->bl[f.bb].live; else lv=f.f->bl[f.bb].ins[f.ip].liveAfter; if(lv) for(int r:*lv){ V&v=f.regs[r]; add(v.e?0x100000000ull+v.e->id:v.c); add(v.e!=nullptr);} else for(V&v:f.regs){ add(v.e?0x100000000ull+v.e->id:v.c); } for(V&v:f.va) add(v.e?0x100000000ull+v.e->id:v.c); }
  for(auto&o:s.glob) add(o->hash()); for(auto&o:s.stk) add(o->hash()); add(77); for(auto&o:s.heap) add(o->hash()); for(E e:s.res) add(e->id); return {a,b}; }

static void prio(State&s,u64&p1,u64&p2){ p1=p2=s.gen; if(optPrio.size()==2){ u64 v[2]; bool ok=true; for(int i=0;i<2;i++){ auto it=globIdx.find(optPrio[i]); if(it==globIdx.end()){ok=false;break;} Obj*o=s.glob[it->second].p; V x=loadObj(o,0,64); if(x.e){ok=false;break;} v[i]=x.c; } if(ok){ p1=v[0]?v[0]:v[1]; p2=v[1]; } } }

static void exec(State&s);
static void decodeLazy(Func*f);
// Jump of the top frame to block t.
static void jump(State&s,Frame&f,int t){ Blk&b=f.f->bl[t]; auto it=b.phis.find(f.bb); if(it!=b.phis.end()){ V tmp[64]; std::vector<V> big; V*x=tmp; if(it->second.size()>64){ big.resize(it->second.size()); x=big.data(); } int i=0; for(auto&p:it->second) x[i++]=getv(f,p.src,64); i=0; for(auto&p:it->second) f.regs[p.dst]=x[i++]; } f.prev=f.bb; f.bb=t; f.ip=0; }

struct Yield{};
static V native(State&s,Inst&I){ Frame&f=s.fr.back(); auto arg=[&](int i){ return conc(s,I.args[i],I.aw[i],"argument"); };
  switch(I.native){
  case N_NOP: case N_VAEND: return {0,nullptr};
  case N_MALLOC:{ u64 n=arg(0); if(n>(1ull<<26)){ violation(s,"bad-alloc","allocation of "+std::to_string(n)+" bytes",s.pc); endLeaf(s); throw Abort(); } Obj*o=newObj(s,s.heap,s.heapNext,n,OK_HEAP,true,"malloc"); return {o->base,nullptr}; }
  case N_CALLOC:{ u64 n=arg(0)*arg(1); Obj*o=newObj(s,s.heap,s.heapNext,n,OK_HEAP,false,"calloc"); return {o->base,nullptr}; }
  case N_FREE: case N_REALLOC:{ u64 p=arg(0); u64 n=I.native==N_REALLOC?arg(1):0; if(n>(1ull<<26)){ violation(s,"bad-alloc","reallocation of "+std::to_string(n)+" bytes",s.pc); endLeaf(s); throw Abort(); } if(p==0){ if(I.native==N_FREE) return {0,nullptr}; Obj*o=newObj(s,s.heap,s.heapNext,n,OK_HEAP,true,"realloc"); return {o->base,nullptr}; }
    size_t ix=0; Obj*o= p>=A_HEAP?findIn(s.heap,p,&ix):nullptr; if(!o||o->base!=p){ violation(s,"bad-free","free/realloc of a pointer that is not a live heap block: "+describe(s,p,o),s.pc); endLeaf(s); throw Abort(); }
    u64 ret=0; if(I.native==N_REALLOC){ Ref keep(o); Obj*q=newObj(s,s.heap,s.heapNext,n,OK_HEAP,true,"realloc"); for(u32 i=0;i<std::min<u64>(n,o->size);i++) wrByte(q,i,rdByte(o,i)); ret=q->base; }
    s.heap.erase(s.heap.begin()+ix); return {ret,nullptr}; }
  case N_MEMCPY:{ u64 d=arg(0),q=arg(1),n=arg(2); if(n>(1ull<<30)){ violation(s,"oob-write","memory copy of "+std::to_string(n)+" bytes",s.pc); endLeaf(s); throw Abort(); } if(n==0) return {d,nullptr}; Obj*so=access(s,q,n,false); Ref hold(so); std::vector<V> t(n); for(u64 i=0;i<n;i++) t[i]=rdByte(so,q-so->base+i); Obj*dO=access(s,d,n,true); for(u64 i=0;i<n;i++) wrByte(dO,d-dO->base+i,t[i]); return {d,nullptr}; }
  case N_MEMSET:{ u64 d=arg(0),n=arg(2); if(n==0) return {d,nullptr}; Obj*dO=access(s,d,n,true); V v=getv(f,I.args[1],I.aw[1]); if(v.e&&I.aw[1]!=8) v=toV(P.op(O_TRUNC,8,v.e)); v.c&=255; for(u64 i=0;i<n;i++) wrByte(dO,d-dO->base+i,v); return {d,nullptr}; }
  case N_STACKSAVE: return {s.stackTop,nullptr};
  case N_STACKRESTORE:{ u64 p=arg(0); while(s.stk.size()&&s.stk.back()->base>=p) s.stk.pop_back(); s.stackTop=p; return {0,nullptr}; }
  case N_VBYTES: case N_VBYTESDOM:{ u64 p=arg(0),n=arg(1); std::string nm=cstr(s,arg(2)); Set256 dom=FULL256; if(I.native==N_VBYTESDOM){ dom=Set256(); u64 q=arg(3),m=arg(4); Obj*o=access(s,q,m,false); for(u64 i=0;i<m;i++) dom.set(o->d[q-o->base+i]); } if(n==0) return {0,nullptr}; Obj*o=access(s,p,n,true); for(u64 i=0;i<n;i++){ u32 v=P.newByte(nm+"."+std::to_string(i),dom); wrByte(o,p-o->base+i,toV(P.byteVar(v))); } return {0,nullptr}; }
  case N_VI:{ std::string nm=cstr(s,arg(0)); return toV(P.wideVar(nm,I.w)); }
  case N_VRANGE:{ std::string nm=cstr(s,arg(0)); i64 lo=sx(arg(1),32),hi=sx(arg(2),32); if(hi<lo||hi-lo>255) fatal(&s,"v_range"); Set256 d; for(i64 i=lo;i<=hi;i++) d.set(i-lo); u32 v=P.newByte(nm+"@"+std::to_string(lo)+":"+std::to_string(hi),d); E e=P.op(O_ADD,32,P.op(O_ZEXT,32,P.byteVar(v)),P.cst((u64)lo,32)); return toV(e); }
  case N_VASSUME:{ V v=getv(f,I.args[0],I.aw[0]); if(!v.e){ if(v.c==0){ endLeaf(s); throw Abort(); } return {0,nullptr}; } if(v.e->k==K_UNDEF||v.e->k==K_OPAQUE) fatal(&s,"assume on undef"); E c=P.op(O_NE,1,v.e,P.cst(0,I.aw[0])); if(c->k==K_CONST){ if(!c->val){endLeaf(s);throw Abort();} return{0,nullptr}; } M t,fl; bool ar; Tri d=decide(s,c,t,fl,ar); if(d==T_FALSE){ endLeaf(s); throw Abort(); } if(d==T_BOTH){ State x; x.pc=fl; x.res=s.res; if(ar) x.res.push_back(P.notE(c)); endLeaf(x); nEnded--; s.pc=t; if(ar) s.res.push_back(c); } return {0,nullptr}; }
  case N_VASSERT:{ nAsserts++; u64 mp=arg(1); std::string msg=cstr(s,mp); assertSites[msg]++; V v=getv(f,I.args[0],I.aw[0]);
    if(!v.e){ nAssertsFolded++; if(v.c==0){ violation(s,"assert",msg,s.pc); endLeaf(s); throw Abort(); } return {0,nullptr}; }
    if(v.e->k==K_UNDEF){ violation(s,"uninit","assertion on uninitialised value: "+msg,s.pc); endLeaf(s); throw Abort(); } if(v.e->k==K_OPAQUE) fatal(&s,"assert on opaque");
    E c=P.op(O_NE,1,v.e,P.cst(0,I.aw[0])); if(c->k==K_CONST){ nAssertsFolded++; if(!c->val){ violation(s,"assert",msg,s.pc); endLeaf(s); throw Abort(); } return {0,nullptr}; }
    M t,fl; bool ar; Tri d=decide(s,c,t,fl,ar);
    if(d!=T_TRUE){ if(ar) violation(s,"assert",msg,s.pc,P.notE(c)); else violation(s,"assert",msg,fl); State x; x.pc=fl; x.res=s.res; if(ar) x.res.push_back(P.notE(c)); endLeaf(x); if(d==T_FALSE) throw Abort(); s.pc=t; if(ar) s.res.push_back(c); }
    else if(!ar&&s.res.empty()){ auto it=oblig.find(c); if(it==oblig.end()) oblig[c]=s.pc; else it->second=D.orM(it->second,s.pc); }
    return {0,nullptr}; }
  case N_VCOVER: covers[cstr(s,arg(0))]++; return {0,nullptr};
  case N_VCONC: return {arg(0),nullptr};
  case N_VISC:{ V v=getv(f,I.args[0],I.aw[0]); return {v.e==nullptr,nullptr}; }
  case N_VOBJLEFT:{ u64 p=arg(0); std::vector<Ref>*v; size_t ix; Obj*o=lookup(s,p,&v,&ix); return {o?o->base+o->size-p:0,nullptr}; }
  case N_VHEAP: return {s.heap.size(),nullptr};
  case N_VPOISON:{ u64 p=arg(0),n=arg(1); if(n){ Obj*o=access(s,p,n,true); memset(o->st+(p-o->base),1,n);} return {0,nullptr}; }
  case N_VEXIT: endLeaf(s); nPaths++; throw Abort();
  case N_ABORT: violation(s,"abort","abort or failed assertion reached",s.pc); endLeaf(s); throw Abort();
  case N_ABS:{ V v=getv(f,I.args[0],I.aw[0]); unsigned w=I.aw[0]; if(!v.e){ i64 x=sx(v.c,w); return {(u64)(x<0?-x:x)&mask(w),nullptr}; } return toV(P.op(O_ITE,w,P.op(O_SLT,1,v.e,P.cst(0,w)),P.op(O_SUB,w,P.cst(0,w),v.e),v.e)); }
  case N_SMAX:case N_SMIN:case N_UMAX:case N_UMIN:{ unsigned w=I.aw[0]; E a=toE(getv(f,I.args[0],w),w),b=toE(getv(f,I.args[1],w),w); u8 o=I.native==N_SMAX?O_SGT:I.native==N_SMIN?O_SLT:I.native==N_UMAX?O_UGT:O_ULT; return toV(P.op(O_ITE,w,P.op(o,1,a,b),a,b)); }
  case N_EXPECT: return getv(f,I.args[0],I.aw[0]);
  case N_FABS:{ V v=getv(f,I.args[0],64); if(v.e) return {0,P.opaque[I.w]}; return {v.c&(mask(I.w)>>1),nullptr}; }
  case N_VPRINT:{ std::string m=cstr(s,arg(0)); V v=getv(f,I.args[1],I.aw[1]); if(optVerbose){ if(v.e) fprintf(stderr,"%s <sym k%d>\n",m.c_str(),v.e->k); else fprintf(stderr,"%s %lld (0x%llx)\n",m.c_str(),(long long)v.c,(long long)v.c);} return {0,nullptr}; }
  case N_VASTART:{ u64 ap=arg(0); Frame&fr=s.fr.back(); Obj*rs=newObj(s,s.stk,s.stackTop,176,OK_STACK,true,"reg_save_area"); u64 rbase=rs->base; std::vector<V> ov; int gp=0,fp=0; u32 gpo=0,fpo=48; 
     for(size_t i=0;i<fr.va.size();i++){ bool isf= fr.va[i].e&&fr.va[i].e->k==K_OPAQUE; bool fixed=(int)i<fr.f->nargs; // fp-ness of variadic args is passed in high registers by tagging
       (void)isf; u64 tag=fr.stop; (void)tag; bool ff= i<fr.f->argfp.size()?fr.f->argfp[i]:false; // patched by caller
       if(fr.regs.size()>0){} if(s.fr.size()>=2){ Frame&c=s.fr[s.fr.size()-2]; Inst&ci=c.f->bl[c.bb].ins[c.ip]; if(i<ci.isfp.size()) ff=ci.isfp[i]; }
       if(ff){ if(fp<8){ storeObj(rs,48+16*fp,64,fr.va[i]); fp++; } else ov.push_back(fr.va[i]); } else { if(gp<6){ storeObj(rs,8*gp,64,fr.va[i]); gp++; } else ov.push_back(fr.va[i]); }
       if(fixed){ gpo=8*gp; fpo=48+16*fp; } }
     Obj*oa=newObj(s,s.stk,s.stackTop,8*ov.size()+8,OK_STACK,true,"overflow_arg_area"); for(size_t i=0;i<ov.size();i++) storeObj(oa,8*i,64,ov[i]);
     Obj*o=access(s,ap,24,true); u32 off=ap-o->base; storeObj(o,off,32,{gpo,nullptr}); storeObj(o,off+4,32,{fpo,nullptr}); storeObj(o,off+8,64,{oa->base,nullptr}); storeObj(o,off+16,64,{rbase,nullptr}); return {0,nullptr}; }
  }
  fatal(&s,"native"); return {0,nullptr}; }

static double asD(u64 x,unsigned w){ if(w==32){ float f; u32 y=x; memcpy(&f,&y,4); return f; } double d; memcpy(&d,&x,8); return d; }
static u64 fromD(double d,unsigned w){ if(w==32){ float f=(float)d; u32 y; memcpy(&y,&f,4); return y; } u64 x; memcpy(&x,&d,8); return x; }

static void exec(State&s){
  for(;;){
    Frame&f=s.fr.back(); Blk&b=f.f->bl[f.bb]; Inst&I=b.ins[f.ip]; nInst++; 
    if(++s.steps>optSteps){ violation(s,"hang","path exceeds "+std::to_string(optSteps)+" instructions",s.pc); endLeaf(s); throw Abort(); }
    switch(I.k){
    case I_NOP: f.ip++; break;
    case I_BIN:{ V a=getv(f,I.a,I.w),c=getv(f,I.b,I.w); 
      if(I.op>=O_UDIV&&I.op<=O_SREM){ u64 d=conc(s,I.b,I.w,"divisor"); if(d==0){ violation(s,"div-zero","division by zero",s.pc); endLeaf(s); throw Abort(); } c={d,nullptr}; a=getv(f,I.a,I.w); }
      if(!a.e&&!c.e){ u64 r=fold(I.op,I.w,I.w,a.c,c.c,0); if(optOverflow&&I.nsw){ __int128 x=sx(a.c,I.w),y=sx(c.c,I.w),z=I.op==O_ADD?x+y:I.op==O_SUB?x-y:I.op==O_MUL?x*y:(__int128)sx(r,I.w); if(z!=(__int128)sx(r,I.w)) violation(s,"overflow","signed overflow",s.pc); } f.regs[I.dst]={r,nullptr}; }
      else f.regs[I.dst]=toV(P.op(I.op,I.w,toE(a,I.w),toE(c,I.w)));
      f.ip++; break; }
    case I_CMP:{ V a=getv(f,I.a,I.wa),c=getv(f,I.b,I.wa); if(!a.e&&!c.e) f.regs[I.dst]={fold(I.op,1,I.wa,a.c,c.c,0),nullptr}; else f.regs[I.dst]=toV(P.op(I.op,1,toE(a,I.wa),toE(c,I.wa))); f.ip++; break; }
    case I_CAST:{ V a=getv(f,I.a,I.wa); if(!a.e) f.regs[I.dst]={fold(I.op,I.w,I.wa,a.c,0,0),nullptr}; else f.regs[I.dst]= I.w==I.wa?a:toV(P.op(I.op,I.w,a.e)); f.ip++; break; }
    case I_FREEZE: { V a=getv(f,I.a,I.w); f.regs[I.dst]=a; f.ip++; break; }
    case I_SELECT:{ V c=getv(f,I.a,1); if(!c.e) f.regs[I.dst]=getv(f,c.c?I.b:I.c,I.w); else { if(c.e->k==K_UNDEF){ violation(s,"uninit","select on uninitialised value",s.pc); endLeaf(s); throw Abort(); } V x=getv(f,I.b,I.w),y=getv(f,I.c,I.w); f.regs[I.dst]=toV(P.op(O_ITE,I.w,c.e,toE(x,I.w),toE(y,I.w))); } f.ip++; break; }
    case I_GEP:{ V p=getv(f,I.a,64); if(!p.e){ bool sy=false; u64 r=p.c+I.imm; for(size_t i=0;i<I.args.size();i++){ V x=getv(f,I.args[i],I.aw[i]); if(x.e){sy=true;break;} r+=(u64)sx(x.c,I.aw[i])*I.scale[i]; } if(!sy){ f.regs[I.dst]={r,nullptr}; f.ip++; break; } }
      E e=P.op(O_ADD,64,toE(p,64),P.cst(I.imm,64)); for(size_t i=0;i<I.args.size();i++){ E x=toE(getv(f,I.args[i],I.aw[i]),I.aw[i]); if(I.aw[i]<64) x=P.op(O_SEXT,64,x); e=P.op(O_ADD,64,e,P.op(O_MUL,64,x,P.cst(I.scale[i],64))); } f.regs[I.dst]=toV(e); f.ip++; break; }
    case I_LOAD:{ V p=getv(f,I.a,64); if(!p.e){ unsigned n=(I.w+7)/8; Obj*o=access(s,p.c,n,false); f.regs[I.dst]=loadObj(o,p.c-o->base,I.w); f.ip++; break; }
      if(p.e->k==K_TAB){ // address depends on one byte variable: build the table of loaded values
        Set256 feas=D.project(s.pc,p.e->var); unsigned n=(I.w+7)/8; bool ok=true; Set256 bad; Tab t; memset(&t,0,sizeof t); u64 badA=0;
        for(int i=0;i<256&&ok;i++) if(feas.get(i)){ u64 a=p.e->tab->v[i]; std::vector<Ref>*vv; size_t ix; Obj*o=lookup(s,a,&vv,&ix); if(!o||a+n>o->base+o->size){ bad.set(i); badA=a; continue; } V x=loadObj(o,a-o->base,I.w); if(x.e){ ok=false; break; } t.v[i]=x.c; }
        if(ok&&s.res.empty()){ if(!bad.empty()){ M bp=D.andM(s.pc,D.unary(p.e->var,bad)); std::vector<Ref>*vv; size_t ix; badAccess(s,badA,n,false,lookup(s,badA,&vv,&ix),bp); State x; x.pc=bp; endLeaf(x); s.pc=D.andM(s.pc,D.unary(p.e->var,~bad)); if(!s.pc) throw Abort(); }
          // values outside the feasible set are irrelevant: pick a feasible one so that constants fold
          int ff=(feas&~bad).first(); for(int i=0;i<256;i++) if(!feas.get(i)||bad.get(i)) t.v[i]=t.v[ff];
          f.regs[I.dst]=toV(P.tabE(p.e->var,t,I.w)); f.ip++; break; } }
      conc(s,I.a,64,"address"); break; }
    case I_STORE:{ V p=getv(f,I.b,64); if(p.e){ conc(s,I.b,64,"address"); break; } unsigned n=(I.w+7)/8; Obj*o=access(s,p.c,n,true); storeObj(o,p.c-o->base,I.w,getv(f,I.a,I.w)); f.ip++; break; }
    case I_ALLOCA:{ u64 cnt=conc(s,I.a,I.wa,"array size"); if(sx(cnt,I.wa)<0||cnt*I.imm>(1u<<26)){ violation(s,"bad-alloc","stack array of "+std::to_string((i64)sx(cnt,I.wa))+" elements",s.pc); endLeaf(s); throw Abort(); } Obj*o=newObj(s,s.stk,s.stackTop,cnt*I.imm,OK_STACK,true,I.txt.c_str()); f.regs[I.dst]={o->base,nullptr}; f.ip++; break; }
    case I_BR:{ jump(s,f,I.t1); if(f.f->bl[I.t1].merge){ s.gen++; throw Yield(); } break; }
    case I_CBR:{ V c=getv(f,I.a,1); int t; if(!c.e) t=c.c?I.t1:I.t2; else {
        if(c.e->k==K_UNDEF){ violation(s,"uninit","branch on uninitialised value",s.pc); endLeaf(s); throw Abort(); } if(c.e->k==K_OPAQUE) fatal(&s,"branch on opaque (floating point) value");
        M pt,pf; bool ar; Tri d=decide(s,c.e,pt,pf,ar);
        if(d==T_BOTH){ auto n=clone(s); n->pc=pf; if(ar) n->res.push_back(P.notE(c.e)); Frame&nf=n->fr.back(); if(I.a.r>=0) nf.regs[I.a.r]={0,nullptr}; work.push_back(std::move(n)); s.pc=pt; if(ar) s.res.push_back(c.e); t=I.t1; }
        else t=d==T_TRUE?I.t1:I.t2; }
      jump(s,f,t); if(f.f->bl[t].merge){ s.gen++; throw Yield(); } break; }
    case I_SWITCH:{ V c=getv(f,I.a,I.wa); if(c.e&&!c.e->wide&&c.e->k!=K_UNDEF&&c.e->k!=K_OPAQUE){ std::map<int,M> tg; std::map<u64,M> out; if(!parts(s.pc,c.e,out,70000)) fatal(&s,"switch"); for(auto&x:out){ int t=I.t1; for(auto&k:I.cases) if(k.first==x.first){t=k.second;break;} auto it=tg.find(t); if(it==tg.end()) tg[t]=x.second; else it->second=D.orM(it->second,x.second); }
          if(tg.size()>1&&s.res.size()) conc(s,I.a,I.wa,"switch"); else { bool first=true; int t0=-1; M p0=0; for(auto&x:tg){ if(first){ first=false; t0=x.first; p0=x.second; continue; } auto n=clone(s); n->pc=x.second; Frame&nf=n->fr.back(); jump(*n,nf,x.first); n->skipMerge=false; work.push_back(std::move(n)); } s.pc=p0; jump(s,f,t0); break; } }
      u64 v=conc(s,I.a,I.wa,"switch"); int t=I.t1; for(auto&k:I.cases) if(k.first==v){t=k.second;break;} jump(s,f,t); if(f.f->bl[t].merge){ s.gen++; throw Yield(); } break; }
    case I_RET:{ V r{0,nullptr}; if(I.w) r=getv(f,I.a,I.w); while(s.stk.size()>f.smark) s.stk.pop_back(); s.stackTop=f.stop; s.fr.pop_back(); if(s.fr.empty()){ nPaths++; endLeaf(s); throw Abort(); } Frame&g=s.fr.back(); Inst&C=g.f->bl[g.bb].ins[g.ip]; if(C.dst>=0) g.regs[C.dst]=r; g.ip++; break; }
    case I_CALL:{ Func*fn=I.callee; if(I.indirect){ u64 a=conc(s,I.a,64,"function pointer"); auto it=funcByAddr.find(a); if(it==funcByAddr.end()){ violation(s,"bad-call","call through an invalid function pointer",s.pc); endLeaf(s); throw Abort(); } fn=it->second; }
      if(fn->decl) fatal(&s,"call to unmodelled function "+fn->name);
      std::vector<V> args; args.reserve(I.args.size()); for(size_t i=0;i<I.args.size();i++) args.push_back(getv(f,I.args[i],I.aw[i]?I.aw[i]:64)); doCallFrame(s,fn,args,I.dst); break; }
    case I_NATIVE:{ V r=native(s,I); Frame&g=s.fr.back(); if(I.dst>=0) g.regs[I.dst]=r; g.ip++; break; }
    case I_FBIN:{ V a=getv(f,I.a,I.w),c=getv(f,I.b,I.w); if(a.e||c.e) f.regs[I.dst]={0,P.opaque[I.w]}; else { double x=asD(a.c,I.w),y=asD(c.c,I.w),r=0; switch(I.op){case 0:r=x+y;break;case 1:r=x-y;break;case 2:r=x*y;break;case 3:r=x/y;break;} f.regs[I.dst]={fromD(r,I.w),nullptr}; } f.ip++; break; }
    case I_FNEG:{ V a=getv(f,I.a,I.w); if(a.e) f.regs[I.dst]={0,P.opaque[I.w]}; else f.regs[I.dst]={fromD(-asD(a.c,I.w),I.w),nullptr}; f.ip++; break; }
    case I_FCMP:{ V a=getv(f,I.a,I.wa),c=getv(f,I.b,I.wa); if(a.e||c.e) f.regs[I.dst]={0,P.opaque[1]}; else { double x=asD(a.c,I.wa),y=asD(c.c,I.wa); bool r=false; bool un=x!=x||y!=y; int p=I.op; bool ord=!(p&8); bool q=((p&1)&&x==y)||((p&2)&&x>y)||((p&4)&&x<y); r=un?!ord:q; f.regs[I.dst]={(u64)r,nullptr}; } f.ip++; break; }
    case I_FCAST:{ V a=getv(f,I.a,I.wa); if(a.e) { f.regs[I.dst]={0,P.opaque[I.w]}; } else { u64 r=0; switch(I.op){ case 0: r=fromD((double)sx(a.c,I.wa),I.w); break; case 1: r=fromD((double)a.c,I.w); break; case 2: r=(u64)(i64)asD(a.c,I.wa)&mask(I.w); break; case 3: r=(u64)asD(a.c,I.wa)&mask(I.w); break; case 4: case 5: r=fromD(asD(a.c,I.wa),I.w); break; } if(I.op==0&&I.w==32){ float fl=(float)sx(a.c,I.wa); u32 y; memcpy(&y,&fl,4); r=y; } f.regs[I.dst]={r,nullptr}; } f.ip++; break; }
    case I_UNREACH: violation(s,"unreachable","unreachable code reached",s.pc); endLeaf(s); throw Abort();
    case I_BAD: fatal(&s,"unsupported instruction: "+I.txt);
    }
  }
}

// ---------------------------------------------------------------- module loading
static const DataLayout*DL; static Module*Mod;
static std::map<const GlobalValue*,u64> gaddr;
static bool fpT(Type*t){ return t->isFloatTy()||t->isDoubleTy(); }
static unsigned widthOf(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 0; }
static bool constVal(const Constant*c,u64&out,bool&undef){ undef=false;
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) return false; out=ci->getZExtValue(); return true; }
  if(isa<ConstantPointerNull>(c)){ out=0; return true; } if(isa<UndefValue>(c)){ undef=true; out=0; return true; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ if(!fpT(cf->getType())) return false; out=cf->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
  if(auto*g=dyn_cast<GlobalValue>(c)){ auto it=gaddr.find(g); if(it==gaddr.end()) return false; out=it->second; return true; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){ if(auto*gep=dyn_cast<GEPOperator>(ce)){ APInt off(64,0); if(!gep->accumulateConstantOffset(*DL,off)) return false; u64 b; bool u; if(!constVal(cast<Constant>(gep->getPointerOperand()),b,u)) return false; out=b+off.getSExtValue(); return true; }
    if(ce->isCast()){ u64 b; bool u; if(!constVal(ce->getOperand(0),b,u)) return false; out=b&mask(widthOf(ce->getType())); return true; }
    if(ce->getOpcode()==Instruction::Sub||ce->getOpcode()==Instruction::Add){ u64 a,b; bool u; if(!constVal(ce->getOperand(0),a,u)||!constVal(ce->getOperand(1),b,u)) return false; out=ce->getOpcode()==Instruction::Sub?a-b:a+b; return true; } }
  return false; }
static void initMem(Obj*o,u32 off,const Constant*c){ Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||c->isNullValue()) return; 
  if(auto*ds=dyn_cast<ConstantDataSequential>(c)){ StringRef r=ds->getRawDataValues(); memcpy(o->d+off,r.data(),r.size()); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initMem(o,off+i*es,ca->getOperand(i)); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initMem(o,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
  if(isa<UndefValue>(c)) return;
  u64 v; bool u; if(constVal(c,v,u)){ memcpy(o->d+off,&v,(widthOf(t)+7)/8); return; }
  fprintf(stderr,"osym: unsupported constant initialiser\n"); exit(2); }

static void loadModule(const std::string&file){
  static LLVMContext C; SMDiagnostic err; auto m=parseIRFile(file,err,C); if(!m){ err.print("osym",errs()); exit(2); } Mod=m.release(); DL=&Mod->getDataLayout();
  int id=0; for(Function&F:*Mod){ if(F.isIntrinsic()) continue; Func*f=new Func(); f->llf=&F; f->name=F.getName().str(); f->id=id; f->addr=A_FN+16*(id++); f->decl=F.isDeclaration(); f->vararg=F.isVarArg(); if(auto*sp=F.getSubprogram()){ f->file=sp->getFilename().str(); f->line=sp->getLine(); } funcs.push_back(f); funcByName[f->name]=f; funcByAddr[f->addr]=f; gaddr[&F]=f->addr; }
  std::vector<std::pair<GlobalVariable*,Obj*>> todo; std::vector<std::pair<GlobalVariable*,int>> todoG;
  for(GlobalVariable&G:Mod->globals()){ u64 sz=DL->getTypeAllocSize(G.getValueType()); std::string*nm=new std::string(G.getName().str());
    if(G.isConstant()){ u64 b=(nextConst+15)&~15ull; Obj*o=new Obj(b,sz,OK_CONST,false); o->ref=1; o->name=nm->c_str(); nextConst=b+sz+32; constObjs.push_back(o); gaddr[&G]=b; globAddr[*nm]=b; todo.push_back({&G,o}); }
    else { u64 b=(nextGlob+15)&~15ull; Obj*o=new Obj(b,sz,OK_GLOB,false); o->name=nm->c_str(); nextGlob=b+sz+32; globInit.push_back(Ref(o)); gaddr[&G]=b; globAddr[*nm]=b; globIdx[*nm]=globInit.size()-1; todo.push_back({&G,o}); if(G.isDeclaration()) o->name=(new std::string("extern "+*nm))->c_str(); } }
  for(GlobalAlias&A:Mod->aliases()){ (void)A; }
  for(auto&x:todo) if(x.first->hasInitializer()) initMem(x.second,0,x.first->getInitializer());
}

static std::map<int,const char*> bad;
static void decodeFn(Function&F){ Func*f=funcByName[F.getName().str()]; if(!f||f->decl||!f->bl.empty()) return; 
  std::map<const BasicBlock*,int> bi; for(BasicBlock&B:F){ int k=bi.size(); bi[&B]=k; } f->bl.resize(bi.size());
  // registers: arguments and values used across blocks (or by phis) get their own slot, others share per-block slots
  std::map<const Value*,int> reg; int n=0; for(Argument&A:F.args()){ reg[&A]=n++; f->argfp.push_back(fpT(A.getType())); } f->nargs=n; int maxLocal=0;
  auto cross=[&](Instruction&I){ if(isa<PHINode>(I)) return true; for(User*u:I.users()){ auto*ui=cast<Instruction>(u); if(ui->getParent()!=I.getParent()||isa<PHINode>(ui)) return true; } return false; };
  for(BasicBlock&B:F) for(Instruction&I:B) if(!I.getType()->isVoidTy()&&cross(I)) reg[&I]=n++;
  int nglob=n; for(BasicBlock&B:F){ int k=nglob; for(Instruction&I:B) if(!I.getType()->isVoidTy()&&!reg.count(&I)) reg[&I]=k++; maxLocal=std::max(maxLocal,k); } f->nregs=std::max(maxLocal,nglob);
  auto opn=[&](const Value*v)->Opn{ if(auto*c=dyn_cast<Constant>(v)){ u64 x; bool u; if(!constVal(c,x,u)) return Opn{-3,0}; if(u) return Opn{-2,0}; return Opn{-1,x}; } auto it=reg.find(v); if(it==reg.end()) return Opn{-3,0}; return Opn{it->second,0}; };
  for(BasicBlock&B:F){ Blk&b=f->bl[bi[&B]];
    for(Instruction&I:B){ Inst x; x.k=I_BAD; if(auto&dl=I.getDebugLoc()) x.line=dl.getLine(); if(!I.getType()->isVoidTy()) x.dst=reg[&I]; x.w=widthOf(I.getType());
      if(auto*p=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<p->getNumIncomingValues();i++){ Opn o=opn(p->getIncomingValue(i)); b.phis[bi[p->getIncomingBlock(i)]].push_back({x.dst,o}); } continue; }
      unsigned opc=I.getOpcode();
      if(auto*bo=dyn_cast<BinaryOperator>(&I)){ x.a=opn(bo->getOperand(0)); x.b=opn(bo->getOperand(1)); static const std::map<unsigned,u8> m={{Instruction::Add,O_ADD},{Instruction::Sub,O_SUB},{Instruction::Mul,O_MUL},{Instruction::UDiv,O_UDIV},{Instruction::SDiv,O_SDIV},{Instruction::URem,O_UREM},{Instruction::SRem,O_SREM},{Instruction::And,O_AND},{Instruction::Or,O_OR},{Instruction::Xor,O_XOR},{Instruction::Shl,O_SHL},{Instruction::LShr,O_LSHR},{Instruction::AShr,O_ASHR}};
        auto it=m.find(opc); if(it!=m.end()&&x.w&&x.w<=64){ x.k=I_BIN; x.op=it->second; if(auto*ob=dyn_cast<OverflowingBinaryOperator>(bo)) x.nsw=ob->hasNoSignedWrap()&&opc!=Instruction::Shl; } else if(fpT(I.getType())){ x.k=I_FBIN; x.op= opc==Instruction::FAdd?0:opc==Instruction::FSub?1:opc==Instruction::FMul?2:3; if(opc==Instruction::FRem) x.k=I_BAD; } }
      else if(auto*c=dyn_cast<ICmpInst>(&I)){ x.k=I_CMP; x.a=opn(c->getOperand(0)); x.b=opn(c->getOperand(1)); x.wa=widthOf(c->getOperand(0)->getType()); switch(c->getPredicate()){ case CmpInst::ICMP_EQ:x.op=O_EQ;break;case CmpInst::ICMP_NE:x.op=O_NE;break;case CmpInst::ICMP_ULT:x.op=O_ULT;break;case CmpInst::ICMP_ULE:x.op=O_ULE;break;case CmpInst::ICMP_UGT:x.op=O_UGT;break;case CmpInst::ICMP_UGE:x.op=O_UGE;break;case CmpInst::ICMP_SLT:x.op=O_SLT;break;case CmpInst::ICMP_SLE:x.op=O_SLE;break;case CmpInst::ICMP_SGT:x.op=O_SGT;break;default:x.op=O_SGE; } }
      else if(auto*c=dyn_cast<FCmpInst>(&I)){ x.k=I_FCMP; x.a=opn(c->getOperand(0)); x.b=opn(c->getOperand(1)); x.wa=widthOf(c->getOperand(0)->getType()); x.op=c->getPredicate(); }
      else if(auto*c=dyn_cast<CastInst>(&I)){ x.a=opn(c->getOperand(0)); x.wa=widthOf(c->getSrcTy()); x.k=I_CAST; switch(opc){ case Instruction::ZExt:x.op=O_ZEXT;break; case Instruction::SExt:x.op=O_SEXT;break; case Instruction::Trunc: case Instruction::PtrToInt:x.op=x.w>x.wa?O_ZEXT:O_TRUNC;break; case Instruction::IntToPtr:x.op=O_ZEXT;break; case Instruction::BitCast:x.op=O_TRUNC;break; case Instruction::SIToFP:x.k=I_FCAST;x.op=0;break; case Instruction::UIToFP:x.k=I_FCAST;x.op=1;break; case Instruction::FPToSI:x.k=I_FCAST;x.op=2;break; case Instruction::FPToUI:x.k=I_FCAST;x.op=3;break; case Instruction::FPExt:x.k=I_FCAST;x.op=4;break; case Instruction::FPTrunc:x.k=I_FCAST;x.op=5;break; default:x.k=I_BAD; } if(!x.w||!x.wa) x.k=I_BAD; }
      else if(auto*c=dyn_cast<SelectInst>(&I)){ x.k=I_SELECT; x.a=opn(c->getCondition()); x.b=opn(c->getTrueValue()); x.c=opn(c->getFalseValue()); }
      else if(auto*c=dyn_cast<LoadInst>(&I)){ x.k=x.w?I_LOAD:I_BAD; x.a=opn(c->getPointerOperand()); }
      else if(auto*c=dyn_cast<StoreInst>(&I)){ x.w=widthOf(c->getValueOperand()->getType()); x.k=x.w?I_STORE:I_BAD; x.a=opn(c->getValueOperand()); x.b=opn(c->getPointerOperand()); if(x.a.r==-3||x.b.r==-3) x.k=I_BAD; }
      else if(auto*c=dyn_cast<GetElementPtrInst>(&I)){ x.k=I_GEP; x.a=opn(c->getPointerOperand()); i64 imm=0; for(auto gi=gep_type_begin(c),ge=gep_type_end(c);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(StructType*st=gi.getStructTypeOrNull()) imm+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 es=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) imm+=ci->getSExtValue()*(i64)es; else { x.args.push_back(opn(ix)); x.scale.push_back(es); x.aw.push_back(widthOf(ix->getType())); } } } x.imm=imm; }
      else if(auto*c=dyn_cast<AllocaInst>(&I)){ x.k=I_ALLOCA; x.a=opn(c->getArraySize()); x.wa=widthOf(c->getArraySize()->getType()); x.imm=DL->getTypeAllocSize(c->getAllocatedType()); x.txt=c->getName().str(); }
      else if(auto*c=dyn_cast<BranchInst>(&I)){ if(c->isConditional()){ x.k=I_CBR; x.a=opn(c->getCondition()); x.t1=bi[c->getSuccessor(0)]; x.t2=bi[c->getSuccessor(1)]; } else { x.k=I_BR; x.t1=bi[c->getSuccessor(0)]; } }
      else if(auto*c=dyn_cast<SwitchInst>(&I)){ x.k=I_SWITCH; x.a=opn(c->getCondition()); x.wa=widthOf(c->getCondition()->getType()); x.t1=bi[c->getDefaultDest()]; for(auto cs:c->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(),bi[cs.getCaseSuccessor()]}); }
      else if(auto*c=dyn_cast<ReturnInst>(&I)){ x.k=I_RET; if(c->getReturnValue()){ x.a=opn(c->getReturnValue()); x.w=widthOf(c->getReturnValue()->getType()); } else x.w=0; }
      else if(isa<UnreachableInst>(&I)) x.k=I_UNREACH;
      else if(opc==Instruction::FNeg){ x.k=I_FNEG; x.a=opn(I.getOperand(0)); }
      else if(opc==Instruction::Freeze){ x.k=I_FREEZE; x.a=opn(I.getOperand(0)); }
      else if(auto*c=dyn_cast<CallInst>(&I)){ if(isa<DbgInfoIntrinsic>(c)) continue; x.k=I_CALL; for(unsigned i=0;i<c->arg_size();i++){ x.args.push_back(opn(c->getArgOperand(i))); x.aw.push_back(widthOf(c->getArgOperand(i)->getType())); x.isfp.push_back(fpT(c->getArgOperand(i)->getType())); }
        Function*cf=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); 
        if(!cf){ if(c->isInlineAsm()){ x.k=I_BAD; } else { x.indirect=true; x.a=opn(c->getCalledOperand()); } }
        else { std::string nm=cf->getName().str(); 
          if(cf->isIntrinsic()){ x.k=I_NATIVE; auto sw=[&](const char*p){ return nm.rfind(p,0)==0; }; 
            if(sw("llvm.dbg")||sw("llvm.lifetime")||sw("llvm.assume")||sw("llvm.experimental.noalias")||sw("llvm.va_end")) {x.native=N_NOP;} else if(sw("llvm.memcpy")||sw("llvm.memmove")) x.native=N_MEMCPY; else if(sw("llvm.memset")) x.native=N_MEMSET; else if(sw("llvm.stacksave")) x.native=N_STACKSAVE; else if(sw("llvm.stackrestore")) x.native=N_STACKRESTORE; else if(sw("llvm.va_start")) x.native=N_VASTART; else if(sw("llvm.abs")) x.native=N_ABS; else if(sw("llvm.smax")) x.native=N_SMAX; else if(sw("llvm.smin")) x.native=N_SMIN; else if(sw("llvm.umax")) x.native=N_UMAX; else if(sw("llvm.umin")) x.native=N_UMIN; else if(sw("llvm.expect")) x.native=N_EXPECT; else if(sw("llvm.fabs")) x.native=N_FABS; else x.k=I_BAD; }
          else { auto it=natives.find(nm); if(it!=natives.end()&&cf->isDeclaration()){ x.k=I_NATIVE; x.native=it->second; } else x.callee=funcByName[nm]; } } }
      for(Opn*o:{&x.a,&x.b,&x.c}) if(o->r==-3) x.k=I_BAD; for(auto&o:x.args) if(o.r==-3) x.k=(x.k==I_NATIVE&&x.native==N_NOP)?I_NATIVE:I_BAD;
      if(x.k==I_BAD){ raw_string_ostream os(x.txt); I.print(os); }
      if(x.k==I_NATIVE&&x.native==N_NOP) continue;
      b.ins.push_back(std::move(x)); } }
  // liveness (block level, then at calls)
  size_t nb=f->bl.size(); std::vector<std::set<int>> liveIn(nb),use(nb),def(nb); std::vector<std::vector<int>> succ(nb);
  auto uses=[&](Inst&x,std::vector<int>&o){ for(Opn*q:{&x.a,&x.b,&x.c}) if(q->r>=0) o.push_back(q->r); for(auto&q:x.args) if(q.r>=0) o.push_back(q.r); };
  for(size_t i=0;i<nb;i++){ Blk&b=f->bl[i]; Inst&t=b.ins.back(); if(t.t1>=0) succ[i].push_back(t.t1); if(t.t2>=0) succ[i].push_back(t.t2); for(auto&c:t.cases) succ[i].push_back(c.second); std::sort(succ[i].begin(),succ[i].end()); succ[i].erase(std::unique(succ[i].begin(),succ[i].end()),succ[i].end()); }
  // phi: defined at block entry (before merge check), used on the edge
  auto liveOut=[&](size_t i){ std::set<int> o; for(int t:succ[i]){ std::set<int> l=liveIn[t]; auto it=f->bl[t].phis.find(i); if(it!=f->bl[t].phis.end()) { for(auto&p:it->second) l.erase(p.dst); for(auto&p:it->second) if(p.src.r>=0) l.insert(p.src.r); } o.insert(l.begin(),l.end()); } return o; };
  bool ch=true; while(ch){ ch=false; for(int i=(int)nb-1;i>=0;i--){ std::set<int> l=liveOut(i); Blk&b=f->bl[i]; for(int k=(int)b.ins.size()-1;k>=0;k--){ Inst&x=b.ins[k]; if(x.dst>=0) l.erase(x.dst); std::vector<int> u; uses(x,u); l.insert(u.begin(),u.end()); } if(l!=liveIn[i]){ liveIn[i]=l; ch=true; } } }
  for(size_t i=0;i<nb;i++){ Blk&b=f->bl[i]; b.live.assign(liveIn[i].begin(),liveIn[i].end()); std::set<int> l=liveOut(i); for(int k=(int)b.ins.size()-1;k>=0;k--){ Inst&x=b.ins[k]; if(x.k==I_CALL){ std::set<int> m=l; if(x.dst>=0) m.erase(x.dst); x.liveAfter=new std::vector<int>(m.begin(),m.end()); } if(x.dst>=0) l.erase(x.dst); std::vector<int> u; uses(x,u); l.insert(u.begin(),u.end()); } }
  // merge points: targets of retreating edges whose loop is a large part of the function's largest loop
  bool want=optMergeAll; for(auto&p:optMergeFns){ if(f->name.rfind(p,0)==0) want=true; if(p[0]=='@'&&f->file.size()>=p.size()-1&&f->file.compare(f->file.size()-(p.size()-1),p.size()-1,p.substr(1))==0) want=true; }
  if(want){ std::vector<int> color(nb,0); std::vector<std::pair<int,int>> back; std::vector<std::pair<int,size_t>> st; st.push_back({0,0}); color[0]=1; while(!st.empty()){ auto&t=st.back(); if(t.second<succ[t.first].size()){ int v=succ[t.first][t.second++]; if(color[v]==0){ color[v]=1; st.push_back({v,0}); } else if(color[v]==1) back.push_back({t.first,v}); } else { color[t.first]=2; st.pop_back(); } }
    std::vector<std::vector<int>> pred(nb); for(size_t i=0;i<nb;i++) for(int t:succ[i]) pred[t].push_back(i); std::map<int,size_t> sz; size_t mx=0; for(auto&e:back){ std::set<int> body{e.second}; std::vector<int> q; if(!body.count(e.first)){ body.insert(e.first); q.push_back(e.first);} while(!q.empty()){ int v=q.back(); q.pop_back(); for(int p:pred[v]) if(body.insert(p).second) q.push_back(p); } sz[e.second]=std::max(sz[e.second],body.size()); mx=std::max(mx,body.size()); }
    for(auto&x:sz) if(x.second*2>=mx) f->bl[x.first].merge=true; }
}
static void decodeLazy(Func*f){ decodeFn(*(Function*)f->llf); }
static std::string jstr(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }

static bool optWitness=false; static std::string optBatch; static int optPar=8;
// Runs the jobs of a batch file in forked children that share the loaded program. Line: id outfile time maxviol entry name=value...
static bool batch(std::string&entry,std::vector<std::pair<std::string,i64>>&setG){ // true: in a child, go on with the job
  std::vector<std::vector<std::string>> jobs; { std::ifstream f(optBatch); std::string l; while(std::getline(f,l)){ std::istringstream ss(l); std::vector<std::string> w; std::string x; while(ss>>x) w.push_back(x); if(w.size()>=5) jobs.push_back(w); } }
  std::map<pid_t,size_t> run; size_t nx=0; 
  while(nx<jobs.size()||!run.empty()){
    if(nx<jobs.size()&&(int)run.size()<optPar){ pid_t parent=getpid(); fflush(stdout); pid_t c=fork();
      if(c==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); if(getppid()!=parent) _exit(9); auto&w=jobs[nx]; optOut=w[1]; optTime=atof(w[2].c_str()); optMaxViol=atoi(w[3].c_str()); entry=w[4]; for(size_t i=5;i<w.size();i++){ size_t c=w[i].find('='); setG.push_back({w[i].substr(0,c),atoll(w[i].c_str()+c+1)}); } T0=Clk::now(); alarm((unsigned)optTime+150); return true; }
      if(c<0){ usleep(100000); continue; } run[c]=nx++; }
    else { int st=0; pid_t c=waitpid(-1,&st,0); if(c>0&&run.count(c)){ printf("done %s %d\n",jobs[run[c]][0].c_str(),WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st)); fflush(stdout); run.erase(c); } }
  }
  return false; }
int main(int argc,char**argv){ T0=Clk::now(); std::string file,entry="harness"; std::vector<std::pair<std::string,i64>> setG;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="-entry") entry=nx(); else if(a=="-time") optTime=atof(nx().c_str()); else if(a=="-steps") optSteps=atoll(nx().c_str()); else if(a=="-maxviol") optMaxViol=atoi(nx().c_str()); else if(a=="-v") optVerbose=true; else if(a=="-prio"){ std::string p=nx(); size_t c=p.find(','); optPrio={p.substr(0,c),p.substr(c+1)}; } else if(a=="-out") optOut=nx(); else if(a=="-merge"){ std::string p=nx(); size_t b=0; while(b<p.size()){ size_t e=p.find(',',b); if(e==std::string::npos) e=p.size(); optMergeFns.insert(p.substr(b,e-b)); b=e+1; } } else if(a=="-overflow") optOverflow=true; else if(a=="-set"){ std::string p=nx(); size_t c=p.find('='); setG.push_back({p.substr(0,c),atoll(p.c_str()+c+1)}); } else if(a=="-witness") optWitness=true; else if(a=="-batch") optBatch=nx(); else if(a=="-par") optPar=atoi(nx().c_str()); else if(a=="-nocoverage") optCoverage=false; else if(a=="-maxstates") optMaxStates=atoll(nx().c_str()); else if(a=="-mem") optMem=atof(nx().c_str()); else file=a; }
  Z=new z3::context(); loadModule(file);
  if(!optBatch.empty()&&!batch(entry,setG)) _exit(0);
  if(!funcByName.count(entry)){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
  double tLoad=now();
  { auto s=std::make_unique<State>(); s->glob=globInit; globInit.clear(); for(auto&g:setG){ auto it=globIdx.find(g.first); if(it==globIdx.end()){ fprintf(stderr,"osym: no global %s\n",g.first.c_str()); return 2; } Obj*o=s->glob[it->second].p; storeObj(o,0,o->size>=8?64:32,{(u64)g.second,nullptr}); } std::vector<V> none; doCallFrame(*s,funcByName[entry],none,-1); work.push_back(std::move(s)); }
  u64 it=0; 
  while((!work.empty()||!pend.empty())&&fatalMsg.empty()){
    if(((++it&63)==0&&now()>optTime)||nStates>optMaxStates){ incomplete=true; pendingLeft=work.size()+pend.size(); break; }
    if((int)viols.size()>=optMaxViol){ incomplete=true; pendingLeft=work.size()+pend.size(); break; }
    std::unique_ptr<State> s; if(!work.empty()){ s=std::move(work.back()); work.pop_back(); } else { auto b=pend.begin(); s=std::move(b->second); pend.erase(b); Key k=pendKey[s.get()]; pendKey.erase(s.get()); pendIdx.erase(k); auto vi=visited.find(k); if(vi!=visited.end()){ if(s->res.empty()&&D.andM(vi->second,s->pc)!=0){ violation(*s,"hang","the same program state recurs for the same input",D.andM(vi->second,s->pc)); M rest=D.andM(s->pc,D.notM(vi->second)); State x; x.pc=D.andM(vi->second,s->pc); endLeaf(x); if(!rest) continue; s->pc=rest; } vi->second=D.orM(vi->second,s->pc); } else visited[k]=s->pc; }
    try { exec(*s); }
    catch(Abort&){ }
    catch(Yield&){ Key k=keyOf(*s); auto pi=pendIdx.find(k); if(pi!=pendIdx.end()){ State*o=pi->second; o->pc=D.orM(o->pc,s->pc); o->heapNext=std::max(o->heapNext,s->heapNext); o->steps=std::max(o->steps,s->steps); nMerges++; } else { PKey pk; prio(*s,pk.p1,pk.p2); pk.seq=seqNo++; pendIdx[k]=s.get(); pendKey[s.get()]=k; pend[pk]=std::move(s); } }
  }
  // ---- solver verdicts
  double tz0=now(); int obOk=0,obBad=0,obUnk=0; 
  if(fatalMsg.empty()) for(auto&o:oblig){ std::vector<E> none; int r=solve(o.second,none,P.notE(o.first),nullptr); if(r==0) obOk++; else if(r==1) obBad++; else obUnk++; }
  int cover=-2; // 1 = proven complete
  double inputs=0; 
  if(fatalMsg.empty()&&!incomplete&&optCoverage){ if(leaves.size()<=3000){ double t=now(); nQueries++; z3::solver sv(*Z); z3::params p(*Z); p.set("timeout",(unsigned)120000); sv.set(p); domains(sv); for(auto&l:leaves){ z3::expr e=zM(l.second.second); for(E x:l.second.first) e=e&&zBool(x); sv.add(!e); } auto r=sv.check(); cover= r==z3::unsat?1:r==z3::sat?0:-1; zTime+=now()-t; } else cover=-3; }
  for(auto&l:leaves) if(l.first.empty()){ std::unordered_map<M,double> mm; M m=l.second.second; double c=D.count(m,mm,P.byteNames.size()); u32 v=m<=1?P.byteNames.size():D.n[m].var; if(m) for(u32 k=0;k<v;k++) c*=P.byteDom[k].count(); inputs+=c; }
  std::string out="{"; auto num=[&](const char*k,double v){ char b[100]; snprintf(b,100,"\"%s\": %.6g, ",k,v); out+=b; }; auto inum=[&](const char*k,u64 v){ out+=std::string("\"")+k+"\": "+std::to_string(v)+", "; };
  inum("instructions",nInst); inum("forks",nForks); inum("merges",nMerges); inum("states",nStates); inum("paths",nEnded); inum("fast_decisions",nFastDec); inum("z3_queries",nQueries); num("z3_seconds",zTime); inum("obligations",oblig.size()); inum("obligations_unsat",obOk); inum("obligations_bad",obBad); inum("obligations_unknown",obUnk); out+="\"complete_proved\": "+std::to_string(cover)+", "; inum("asserts_evaluated",nAsserts); inum("asserts_folded",nAssertsFolded); inum("byte_vars",P.byteNames.size()); inum("wide_vars",P.wideVars.size()); num("inputs_covered",inputs); num("load_seconds",tLoad); num("seconds",now()); inum("pending",pendingLeft);
  out+="\"incomplete\": "+std::string(incomplete?"true":"false")+", \"fatal\": "+jstr(fatalMsg)+", ";
  out+="\"functions\": ["; bool first=true; for(Func*f:funcs) if(f->used){ out+=(first?"":", ")+jstr(f->name); first=false; } out+="], ";
  out+="\"covers\": {"; first=true; for(auto&c:covers){ out+=(first?"":", ")+jstr(c.first)+": "+std::to_string(c.second); first=false; } out+="}, ";
  out+="\"assert_sites\": {"; first=true; for(auto&c:assertSites){ out+=(first?"":", ")+jstr(c.first)+": "+std::to_string(c.second); first=false; } out+="}, ";
  if(optWitness&&fatalMsg.empty()&&viols.empty()&&!leaves.empty()){ auto b=leaves.begin(); std::map<std::string,u64> w; if(solve(b->second.second,b->second.first,nullptr,&w)==1){ out+="\"witness\": {"; first=true; for(auto&x:w){ out+=(first?"":", ")+jstr(x.first)+": "+std::to_string(x.second); first=false; } out+="}, "; } }
  out+="\"violations\": ["; first=true; for(auto&v:viols){ out+=std::string(first?"":", ")+"{\"kind\": "+jstr(v.kind)+", \"msg\": "+jstr(v.msg)+", \"function\": "+jstr(v.fn)+", \"line\": "+std::to_string(v.line)+", \"unconfirmed_by_solver\": "+(v.unconf?"true":"false")+", \"stack\": "+jstr(v.stack)+", \"inputs\": {"; first=false; bool f2=true; for(auto&w:v.wit){ out+=(f2?"":", ")+jstr(w.first)+": "+std::to_string(w.second); f2=false; } out+="}}"; } out+="]}\n";
  if(optOut.empty()) fputs(out.c_str(),stdout); else { FILE*o=fopen(optOut.c_str(),"w"); fputs(out.c_str(),o); fclose(o); }
  fflush(stdout); _exit(fatalMsg.empty()?0:2);
}
