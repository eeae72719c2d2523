// osym: symbolic executor for LLVM IR -- expressions and path conditions.
// Expressions over byte variables are hash-consed; any expression that depends on exactly one byte variable is
// normalised to a 256-entry table.  Path conditions over byte variables are multi-valued decision diagrams (MDD).
// Every assertion, every violation witness and the completeness of the explored paths are decided by Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3++.h>

using u64 = uint64_t; using u32 = uint32_t; using u8 = uint8_t; using i64 = int64_t;

struct Set256 {
  u64 w[4] = {0,0,0,0};
  bool get(unsigned i) const { return w[i>>6] >> (i&63) & 1; }
  void set(unsigned i) { w[i>>6] |= 1ull << (i&63); }
  bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
  bool full() const { return (w[0]&w[1]&w[2]&w[3]) == ~0ull; }
  Set256 operator&(const Set256&o) const { Set256 r; for(int i=0;i<4;i++) r.w[i]=w[i]&o.w[i]; return r; }
  Set256 operator|(const Set256&o) const { Set256 r; for(int i=0;i<4;i++) r.w[i]=w[i]|o.w[i]; return r; }
  Set256 operator~() const { Set256 r; for(int i=0;i<4;i++) r.w[i]=~w[i]; return r; }
  bool operator==(const Set256&o) const { return !memcmp(w,o.w,sizeof w); }
  bool operator<(const Set256&o) const { return memcmp(w,o.w,sizeof w)<0; }
  unsigned count() const { unsigned c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(w[i]); return c; }
  int first() const { for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
};
static const Set256 FULL256 = ~Set256();

enum Op : u8 { O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_AND,O_OR,O_XOR,O_SHL,O_LSHR,O_ASHR,
  O_EQ,O_NE,O_ULT,O_ULE,O_UGT,O_UGE,O_SLT,O_SLE,O_SGT,O_SGE,O_ZEXT,O_SEXT,O_TRUNC,O_ITE,O_CONCAT,O_EXTRACT };
enum EK : u8 { K_CONST, K_TAB, K_VAR, K_OP, K_UNDEF, K_OPAQUE };

struct Tab { u64 v[256]; };
struct Expr {
  EK k; u8 op; u8 w; bool wide; u32 id; u32 var; u64 val; const Tab* tab; const Expr *a,*b,*c; u64 sup;
};
typedef const Expr* E;

static inline u64 mask(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v, unsigned w) { return w>=64 ? (i64)v : (i64)(v << (64-w)) >> (64-w); }

// Concrete semantics of an operator. wa: width of the first operand. Division by zero is checked by the caller.
static inline u64 fold(u8 op, unsigned w, unsigned wa, u64 a, u64 b, u64 c, unsigned wb=0) {
  u64 r=0;
  switch(op){
  case O_ADD: r=a+b; break; case O_SUB: r=a-b; break; case O_MUL: r=a*b; break;
  case O_UDIV: r=b?a/b:0; break; case O_UREM: r=b?a%b:0; break;
  case O_SDIV: { i64 x=sx(a,wa),y=sx(b,wa); r = y==0?0 : y==-1 ? (u64)0-(u64)x : (u64)(x/y); break; }
  case O_SREM: { i64 x=sx(a,wa),y=sx(b,wa); r = (y==0||y==-1)?0:(u64)(x%y); break; }
  case O_AND: r=a&b; break; case O_OR: r=a|b; break; case O_XOR: r=a^b; break;
  case O_SHL: r= b>=wa?0:a<<b; break; case O_LSHR: r= b>=wa?0:a>>b; break;
  case O_ASHR: { i64 x=sx(a,wa); r= (u64)(b>=wa?(x<0?-1:0):x>>b); break; }
  case O_EQ: r=a==b; break; case O_NE: r=a!=b; break; case O_ULT: r=a<b; break; case O_ULE: r=a<=b; break;
  case O_UGT: r=a>b; break; case O_UGE: r=a>=b; break;
  case O_SLT: r=sx(a,wa)<sx(b,wa); break; case O_SLE: r=sx(a,wa)<=sx(b,wa); break;
  case O_SGT: r=sx(a,wa)>sx(b,wa); break; case O_SGE: r=sx(a,wa)>=sx(b,wa); break;
  case O_ZEXT: r=a; break; case O_SEXT: r=(u64)sx(a,wa); break; case O_TRUNC: r=a; break;
  case O_ITE: r=a?b:c; break; case O_CONCAT: r=(a<<wb)|b; break; case O_EXTRACT: r=a>>b; break;
  }
  return r & mask(w);
}

struct Pool {
  std::vector<E> all;
  struct TH { size_t operator()(const Tab*t) const { u64 h=1469598103934665603ull; for(int i=0;i<256;i++){h^=t->v[i]; h*=1099511628211ull; h^=h>>29;} return h; } };
  struct TE { bool operator()(const Tab*a,const Tab*b) const { return !memcmp(a->v,b->v,sizeof a->v); } };
  std::unordered_map<const Tab*, const Tab*, TH, TE> tabs;
  struct Key { u64 x[6]; bool operator==(const Key&o) const { return !memcmp(x,o.x,sizeof x); } };
  struct KH { size_t operator()(const Key&k) const { u64 h=0x9e3779b97f4a7c15ull; for(int i=0;i<6;i++){h^=k.x[i]; h*=0xff51afd7ed558ccdull; h^=h>>32;} return h; } };
  std::unordered_map<Key,E,KH> cons;
  std::vector<std::string> byteNames; std::vector<Set256> byteDom;
  struct WV { std::string name; unsigned w; }; std::vector<WV> wideVars;
  E undef[65], opaque[65];
  Pool() { for(int i=0;i<=64;i++){ undef[i]=mkraw(K_UNDEF,0,i,0,0,0,0,0,0); opaque[i]=mkraw(K_OPAQUE,0,i,0,0,0,0,0,0);} }
  E mkraw(EK k,u8 op,unsigned w,u32 var,u64 val,const Tab*t,E a,E b,E c) {
    Key key{{(u64)k|(u64)op<<8|(u64)w<<16|(u64)var<<32,val,(u64)t,(u64)a,(u64)b,(u64)c}};
    auto it=cons.find(key); if(it!=cons.end()) return it->second;
    Expr*e=new Expr(); e->k=k;e->op=op;e->w=w;e->var=var;e->val=val;e->tab=t;e->a=a;e->b=b;e->c=c;e->id=all.size()+1;
    e->sup=0;e->wide=false;
    if(k==K_TAB) e->sup=1ull<<var; else if(k==K_VAR) e->wide=true;
    for(E x:{a,b,c}) if(x){e->sup|=x->sup; e->wide|=x->wide;}
    all.push_back(e); cons.emplace(key,e); return e;
  }
  E cst(u64 v,unsigned w){ return mkraw(K_CONST,0,w,0,v&mask(w),0,0,0,0); }
  E tabE(u32 var,const Tab&t,unsigned w){
    // constant on the variable's domain?  (domains are unconditional facts about the variable)
    const Set256&d=byteDom[var]; bool same=true; u64 v0=0; bool got=false; Tab n;
    for(int i=0;i<256;i++) if(d.get(i)){ u64 x=t.v[i]&mask(w); n.v[i]=x; if(!got){v0=x;got=true;} else if(x!=v0) same=false; }
    if(same) return cst(v0,w);
    for(int i=0;i<256;i++) if(!d.get(i)) n.v[i]=0;
    auto it=tabs.find(&n); const Tab*p;
    if(it==tabs.end()){ Tab*q=new Tab(n); tabs.emplace(q,q); p=q; } else p=it->second;
    return mkraw(K_TAB,0,w,var,0,p,0,0,0);
  }
  u32 newByte(const std::string&n,const Set256&dom){
    for(u32 i=0;i<byteNames.size();i++) if(byteNames[i]==n) return i;
    if(byteNames.size()>=64){ fprintf(stderr,"osym: too many symbolic bytes\n"); exit(2);}
    byteNames.push_back(n); byteDom.push_back(dom); return byteNames.size()-1;
  }
  E byteVar(u32 i){ Tab t; for(int k=0;k<256;k++) t.v[k]=k; return tabE(i,t,8); }
  E wideVar(const std::string&n,unsigned w){
    for(u32 i=0;i<wideVars.size();i++) if(wideVars[i].name==n) return mkraw(K_VAR,0,w,i,0,0,0,0,0);
    wideVars.push_back({n,w}); return mkraw(K_VAR,0,w,wideVars.size()-1,0,0,0,0,0);
  }
  static bool isC(E e){ return e->k==K_CONST; }
  u64 at(E e,unsigned i){ return e->k==K_CONST?e->val:e->tab->v[i]; }
  E op(u8 o,unsigned w,E a,E b=nullptr,E c=nullptr,u64 imm=0){
    for(E x:{a,b,c}) if(x&&x->k==K_UNDEF) return undef[w];
    for(E x:{a,b,c}) if(x&&x->k==K_OPAQUE) return opaque[w];
    u64 sup=a->sup|(b?b->sup:0)|(c?c->sup:0); bool wide=a->wide||(b&&b->wide)||(c&&c->wide);
    unsigned wb=b?b->w:0;
    if(!wide&&sup==0) return cst(fold(o,w,a->w,a->val,o==O_EXTRACT?imm:(b?b->val:0),c?c->val:0,wb),w);
    if(!wide&&(sup&(sup-1))==0){
      u32 var=__builtin_ctzll(sup); 
      bool flat=(a->k<=K_TAB)&&(!b||b->k<=K_TAB)&&(!c||c->k<=K_TAB);
      if(flat){ Tab t; for(int i=0;i<256;i++) t.v[i]=fold(o,w,a->w,at(a,i),o==O_EXTRACT?imm:(b?at(b,i):0),c?at(c,i):0,wb); return tabE(var,t,w); }
    }
    // simplifications
    if(o==O_ITE){ if(isC(a)) return a->val?b:c; if(b==c) return b; if(w==1&&isC(b)&&isC(c)&&b->val==1) return a; }
    if(a==b&&b) switch(o){ case O_EQ:case O_ULE:case O_UGE:case O_SLE:case O_SGE: return cst(1,1); case O_NE:case O_ULT:case O_UGT:case O_SLT:case O_SGT: return cst(0,1);
      case O_SUB:case O_XOR: return cst(0,w); case O_AND:case O_OR: return a; }
    if(b&&isC(b)&&b->val==0) switch(o){ case O_ADD:case O_SUB:case O_OR:case O_XOR:case O_SHL:case O_LSHR:case O_ASHR: return a; case O_AND:case O_MUL: return b; }
    if(isC(a)&&a->val==0&&b) switch(o){ case O_ADD:case O_OR:case O_XOR: return b; case O_AND:case O_MUL: return a; }
    if(w==1&&b&&isC(b)&&b->val==1){ if(o==O_AND) return a; if(o==O_OR) return b; }
    if(w==1&&isC(a)&&a->val==1){ if(o==O_AND) return b; if(o==O_OR) return a; }
    if((o==O_ZEXT||o==O_SEXT||o==O_TRUNC)&&a->w==w) return a;
    if(o==O_EXTRACT&&imm==0&&a->w==w) return a;
    if(o==O_TRUNC&&(a->k==K_OP)&&(a->op==O_ZEXT||a->op==O_SEXT)&&a->a->w>=w) return a->a->w==w?a->a:op(O_TRUNC,w,a->a);
    if(o==O_EXTRACT&&a->k==K_OP&&a->op==O_CONCAT){ unsigned lw=a->b->w; if(imm+w<=lw) return op(O_EXTRACT,w,a->b,0,0,imm); if(imm>=lw) return op(O_EXTRACT,w,a->a,0,0,imm-lw); }
    if(o==O_EXTRACT&&a->k==K_OP&&a->op==O_EXTRACT) return op(O_EXTRACT,w,a->a,0,0,imm+a->val);
    if(o==O_CONCAT&&a->k==K_OP&&b->k==K_OP&&a->op==O_EXTRACT&&b->op==O_EXTRACT&&a->a==b->a&&a->val==b->val+b->w) return op(O_EXTRACT,w,a->a,0,0,b->val);
    if(o==O_EXTRACT && imm==0 && a->k==K_OP && a->op==O_ZEXT && a->a->w==w) return a->a;
    // (zext x) cmp const
    if((o==O_EQ||o==O_NE)&&b&&isC(b)&&a->k==K_OP&&a->op==O_ZEXT){ if(b->val>mask(a->a->w)) return cst(o==O_NE,1); return op(o,1,a->a,cst(b->val,a->a->w)); }
    if((o==O_EQ||o==O_NE)&&w==1&&a->w==1&&b&&isC(b)){ bool pos=(o==O_EQ)==(b->val==1); if(pos) return a; return notE(a); }
    if(o==O_XOR&&w==1&&b&&isC(b)&&b->val==1) return notE(a);
    return mkraw(K_OP,o,w,0,imm,0,a,b,c);
  }
  E notE(E a){
    if(a->k==K_OP){ static const u8 inv[]={O_NE,O_EQ,O_UGE,O_UGT,O_ULE,O_ULT,O_SGE,O_SGT,O_SLE,O_SLT};
      if(a->op>=O_EQ&&a->op<=O_SGE) return mkraw(K_OP,inv[a->op-O_EQ],1,0,0,0,a->a,a->b,0);
      if(a->op==O_XOR&&isC(a->b)&&a->b->val==1) return a->a; 
      return mkraw(K_OP,O_XOR,1,0,0,0,a,cst(1,1),0); }
    if(a->k==K_VAR) return mkraw(K_OP,O_XOR,1,0,0,0,a,cst(1,1),0);
    return op(O_XOR,1,a,cst(1,1));
  }
  // substitute byte variable var := v
  std::unordered_map<u64,E> smemo;
  E subst(E e,u32 var,unsigned v){
    if(!(e->sup>>var&1)) return e;
    if(e->k==K_TAB) return cst(e->tab->v[v],e->w);
    u64 key=((u64)e->id<<16)|(var<<8)|v;
    auto it=smemo.find(key); if(it!=smemo.end()) return it->second;
    E a=e->a?subst(e->a,var,v):0,b=e->b?subst(e->b,var,v):0,c=e->c?subst(e->c,var,v):0;
    E r= op(e->op,e->w,a,b,c,e->val);
    if(smemo.size()>4000000) smemo.clear();
    smemo.emplace(key,r); return r;
  }
};
extern Pool P;

// ---------- MDD ----------
typedef u32 M;            // 0 = false, 1 = true
struct MNode { u32 var; std::vector<std::pair<Set256,M>> ed; };   // edges to non-false children, disjoint sets
struct Mdd {
  std::vector<MNode> n; 
  struct NK{ size_t operator()(const std::string&s)const{ return std::hash<std::string>()(s);} };
  std::unordered_map<std::string,M> uniq;
  struct PH{ size_t operator()(const std::pair<u64,u32>&p)const{ return (p.first*0x9e3779b97f4a7c15ull)^(p.second*0xc2b2ae3d27d4eb4full);} };
  std::unordered_map<std::pair<u64,u32>,M,PH> memo;
  Mdd(){ n.resize(2); n[0].var=n[1].var=~0u; }
  u32 var(M m){ return n[m].var; }
  M mk(u32 v,std::vector<std::pair<Set256,M>>&ed){
    // merge equal children
    std::vector<std::pair<Set256,M>> r;
    for(auto&e:ed){ if(e.second==0||e.first.empty()) continue; bool f=false; for(auto&x:r) if(x.second==e.second){x.first=x.first|e.first;f=true;break;} if(!f) r.push_back(e); }
    if(r.empty()) return 0;
    Set256 dom=P.byteDom[v];
    if(r.size()==1 && (r[0].first&dom)==dom) return r[0].second;
    std::sort(r.begin(),r.end(),[](auto&a,auto&b){return a.second<b.second;});
    std::string k((char*)&v,4); for(auto&e:r){ k.append((char*)e.first.w,32); k.append((char*)&e.second,4);} 
    auto it=uniq.find(k); if(it!=uniq.end()) return it->second;
    n.push_back({v,r}); uniq.emplace(k,n.size()-1); return n.size()-1;
  }
  M unary(u32 v,const Set256&s){ std::vector<std::pair<Set256,M>> e{{s&P.byteDom[v],1}}; return mk(v,e); }
  M andM(M a,M b){
    if(a==0||b==0) return 0; if(a==1) return b; if(b==1||a==b) return a;
    if(a>b) std::swap(a,b);
    auto key=std::make_pair(((u64)a<<32)|b,0u); auto it=memo.find(key); if(it!=memo.end()) return it->second;
    std::vector<std::pair<Set256,M>> r; u32 va=n[a].var,vb=n[b].var,v=std::min(va,vb);
    if(va<vb){ auto ed=n[a].ed; for(auto&e:ed) r.push_back({e.first,andM(e.second,b)}); }
    else if(vb<va){ auto ed=n[b].ed; for(auto&e:ed) r.push_back({e.first,andM(a,e.second)}); }
    else { auto ea=n[a].ed, eb=n[b].ed; for(auto&x:ea) for(auto&y:eb){ Set256 s=x.first&y.first; if(!s.empty()) r.push_back({s,andM(x.second,y.second)}); } }
    M m=mk(v,r); memo[key]=m; return m;
  }
  M notM(M a){
    if(a==0) return 1; if(a==1) return 0;
    auto key=std::make_pair((u64)a,1u); auto it=memo.find(key); if(it!=memo.end()) return it->second;
    u32 v=n[a].var; auto ed=n[a].ed; Set256 rest=P.byteDom[v]; std::vector<std::pair<Set256,M>> r;
    for(auto&e:ed){ rest=rest&~e.first; r.push_back({e.first,notM(e.second)}); }
    r.push_back({rest,1}); M m=mk(v,r); memo[key]=m; return m;
  }
  M orM(M a,M b){
    if(a==1||b==1) return 1; if(a==0) return b; if(b==0||a==b) return a;
    if(a>b) std::swap(a,b);
    auto key=std::make_pair(((u64)a<<32)|b,2u); auto it=memo.find(key); if(it!=memo.end()) return it->second;
    std::vector<std::pair<Set256,M>> r; u32 va=n[a].var,vb=n[b].var,v=std::min(va,vb);
    if(va!=vb){ M x=va<vb?a:b,y=va<vb?b:a; auto ed=n[x].ed; Set256 rest=P.byteDom[v];
      for(auto&e:ed){ rest=rest&~e.first; r.push_back({e.first,orM(e.second,y)}); } r.push_back({rest,y}); }
    else { auto ea=n[a].ed, eb=n[b].ed; Set256 ca,cb; for(auto&x:ea) ca=ca|x.first; for(auto&y:eb) cb=cb|y.first;
      for(auto&x:ea) for(auto&y:eb){ Set256 s=x.first&y.first; if(!s.empty()) r.push_back({s,orM(x.second,y.second)}); }
      for(auto&x:ea){ Set256 s=x.first&~cb; if(!s.empty()) r.push_back({s,x.second}); }
      for(auto&y:eb){ Set256 s=y.first&~ca; if(!s.empty()) r.push_back({s,y.second}); } }
    M m=mk(v,r); memo[key]=m; return m;
  }
  Set256 project(M a,u32 v){ // feasible values of variable v in a (a != 0)
    std::unordered_map<M,Set256> mm; return proj(a,v,mm);
  }
  Set256 proj(M a,u32 v,std::unordered_map<M,Set256>&mm){
    if(a==0) return Set256(); if(a==1||n[a].var>v) return P.byteDom[v];
    auto it=mm.find(a); if(it!=mm.end()) return it->second;
    Set256 r; 
    if(n[a].var==v) for(auto&e:n[a].ed) r=r|e.first; else for(auto&e:n[a].ed) r=r|proj(e.second,v,mm);
    mm[a]=r; return r;
  }
  double count(M a,std::unordered_map<M,double>&mm,u32 nv){ // number of assignments below (from a's own variable)
    if(a==0) return 0; if(a==1) return 1;
    auto it=mm.find(a); if(it!=mm.end()) return it->second; double r=0;
    for(auto&e:n[a].ed){ double c=count(e.second,mm,nv); u32 nx=e.second==1?nv:n[e.second].var; for(u32 k=n[a].var+1;k<nx;k++) c*=P.byteDom[k].count(); r+=c*e.first.count(); }
    mm[a]=r; return r;
  }
};
extern Mdd D;
