// Symbolic executor for LLVM IR (as produced by rustc for the harness crate), deciding branch and
// assertion feasibility with Z3.  See ../DESIGN.md for the method and its trusted parts.
#include "ir.hpp"
#include <z3.h>
#include <cstdarg>
#include <cmath>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <set>

TermPool pool;
static int curEntry=-1;
static void noteFatal(const char* s);
void fatal(const char* fmt, ...){ char b[2048]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); fprintf(stderr,"symx: fatal: %s\n",b); noteFatal(b); _exit(3); }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ------------------------------------------------------------------ shared statistics
static const int MAXENT=512, MAXFN=16384;
struct EntryStats {
  std::atomic<u64> ok, assumed, expected_panic, violations, forks, decisions, implied, q_sat, q_unsat, q_unknown, q_bv, solver_us, insts, asserts, assert_const, assert_proved, limits, timeouts, unsupported, crashed, maxdepth, maxvars, reach, conflicts, samples, active, procs, concretized;
  std::atomic<int> stop; double t0, t1; char msg[400];
};
struct Shared { std::atomic<int> tokens; std::atomic<int> active; std::atomic<u64> maxrss; EntryStats e[MAXENT]; std::atomic<u8> fn[MAXFN]; };
static Shared* SH; static EntryStats* ES;
static void noteFatal(const char* s){ if(SH&&curEntry>=0){ ES->crashed++; strncpy(ES->msg,s,399); } }
static int outfd=-1;
static void emit(const std::string& s){ std::string l=s+"\n"; ssize_t r=write(outfd,l.data(),l.size()); (void)r; }

// ------------------------------------------------------------------ options
static double g_deadline=1e18; static u64 g_maxinst=400000000ull; static unsigned g_qtimeout=30000; static u64 g_maxviol=3; static int g_workers=8; static u64 g_samples=12; static bool g_bvonly=false; static FILE* g_dump=nullptr; static u64 g_dumpEvery=0, g_dumpCnt=0; static bool g_trace=false; static u64 g_param=1;

// ------------------------------------------------------------------ memory
struct Ov { u32 off; u8 n; Term* t; };
struct Obj { int rc=1; u32 size=0; u8 kind=0; /*1 heap 2 stack 3 global 4 const*/ u8* d=nullptr; std::vector<Ov> ov; u32 align=1; };
static Obj* newObj(u64 size, u8 kind, u8 fill){ Obj*o=new Obj; o->size=(u32)size; o->kind=kind; o->d=(u8*)malloc(size?size:1); memset(o->d,fill,size); return o; }
static void dropObj(Obj*o){ if(o&&--o->rc==0){ free(o->d); delete o; } }
static Obj* cloneObj(Obj*o){ Obj*n=new Obj(*o); n->rc=1; n->d=(u8*)malloc(o->size?o->size:1); memcpy(n->d,o->d,o->size); return n; }
struct Chunk { int rc=1; Obj* o[64]; Chunk(){ memset(o,0,sizeof o);} };
struct Mem {
  std::vector<Chunk*> ch; u32 next=1;
  Mem(){} 
  Mem(const Mem& m):ch(m.ch),next(m.next){ for(auto c:ch) c->rc++; }
  Mem& operator=(const Mem&)=delete;
  ~Mem(){ for(auto c:ch) if(--c->rc==0){ for(auto o:c->o) dropObj(o); delete c; } }
  Chunk* wr(u32 id){ Chunk*& c=ch[id>>6]; if(c->rc>1){ Chunk*n=new Chunk; for(int i=0;i<64;i++){ n->o[i]=c->o[i]; if(n->o[i]) n->o[i]->rc++; } c->rc--; c=n; } return c; }
  u32 add(Obj*o){ u32 id=next++; if((id>>6)>=ch.size()) ch.push_back(new Chunk); wr(id)->o[id&63]=o; return id; }
  Obj* get(u32 id) const { if((id>>6)>=ch.size()) return nullptr; return ch[id>>6]->o[id&63]; }
  Obj* getw(u32 id){ Chunk*c=wr(id); Obj*&o=c->o[id&63]; if(o->rc>1){ Obj*n=cloneObj(o); o->rc--; o=n; } return o; }
  void del(u32 id){ Chunk*c=wr(id); dropObj(c->o[id&63]); c->o[id&63]=nullptr; }
};
static Val combine(const std::vector<std::pair<Val,unsigned>>& parts){ // low to high
  Val v=parts[0].first; unsigned w=parts[0].second; for(size_t i=1;i<parts.size();i++){ v=mkConcat(parts[i].first,parts[i].second,v,w); w+=parts[i].second; } return v; }
static inline u64 rdLE(const u8*p, unsigned n){ u64 v=0; memcpy(&v,p,n); return v; }
static Val subTerm(Term* t, unsigned m, unsigned i, unsigned n){ // bytes [i,i+n) of an m-byte term
  if(i==0&&n==m) return Val{0,t};
  if(n==1) return mkExtractByte(Val{0,t},m*8,i);
  Val v=mkLshr(Val{0,t},K(8*i),m*8); return mkTrunc(v,m*8,n*8); }
static Val loadN(const Obj*o, u32 off, unsigned n){
  if(o->ov.empty()) return K(rdLE(o->d+off,n));
  auto it=std::upper_bound(o->ov.begin(),o->ov.end(),off,[](u32 a,const Ov&b){return a<b.off+b.n;});
  if(it==o->ov.end()||it->off>=off+n) return K(rdLE(o->d+off,n));
  if(it->off==off&&it->n==n) return Val{0,it->t};
  std::vector<std::pair<Val,unsigned>> ps; u32 p=off;
  while(p<off+n){
    if(it!=o->ov.end()&&it->off<=p){ u32 e=std::min(off+n,it->off+it->n); ps.push_back({subTerm(it->t,it->n,p-it->off,e-p),(e-p)*8}); p=e; ++it; }
    else { u32 e=off+n; if(it!=o->ov.end()&&it->off<e) e=it->off; ps.push_back({K(rdLE(o->d+p,e-p)),(e-p)*8}); p=e; } }
  return combine(ps);
}
static void clearOv(Obj*o, u32 off, u32 n){
  if(o->ov.empty()||!n) return; 
  auto it=std::upper_bound(o->ov.begin(),o->ov.end(),off,[](u32 a,const Ov&b){return a<b.off+b.n;});
  if(it==o->ov.end()||it->off>=off+n) return;
  size_t i=it-o->ov.begin(), j=i; std::vector<Ov> keep;
  while(j<o->ov.size()&&o->ov[j].off<off+n){ Ov v=o->ov[j]; for(u32 b=0;b<v.n;b++){ u32 q=v.off+b; if(q<off||q>=off+n){ Val x=mkExtractByte(Val{0,v.t},v.n*8,b); if(x.t) keep.push_back({q,1,x.t}); else o->d[q]=(u8)x.c; } } j++; }
  o->ov.erase(o->ov.begin()+i,o->ov.begin()+j); o->ov.insert(o->ov.begin()+i,keep.begin(),keep.end());
}
static void storeN(Obj*o, u32 off, unsigned n, Val v){
  if(!o->ov.empty()) clearOv(o,off,n);
  if(!v.t){ memcpy(o->d+off,&v.c,n); return; }
  auto it=std::lower_bound(o->ov.begin(),o->ov.end(),off,[](const Ov&b,u32 a){return b.off<a;});
  o->ov.insert(it,Ov{off,(u8)n,v.t});
}

// ------------------------------------------------------------------ path conditions and solver
struct PNode { PNode* parent; Val cond; u32 depth; int rc; bool hasBV; };
static void pdrop(PNode*p){ while(p&&--p->rc==0){ PNode*q=p->parent; delete p; p=q; } }
static PNode* ppush(PNode*p, Val c){ PNode*n=new PNode{p,c,p?p->depth+1:1,1,(p&&p->hasBV)||!c.t->intok}; return n; } // takes over the reference to p

typedef std::vector<u64> Model;
static u64 g_stamp=1;
static Model* g_m;
static u64 evalT(Term*t);
static inline u64 ev(Val v){ return v.t? evalT(v.t) : v.c; }
static u64 evalT(Term*t){
  if(t->estamp==g_stamp) return t->eval;
  u64 r=0; unsigned w=t->w; 
  switch(t->k){
    case T_VAR: r=(*g_m)[t->a.c]; break;
    case T_LIN: { i128 s=t->kc; for(auto&p:*t->lin) s+=(i128)evalT(p.first)*p.second; r=(u64)s&maskw(w); break; }
    case B_LE0: { i128 s=t->kc; for(auto&p:*t->lin) s+=(i128)evalT(p.first)*p.second; r=s<=0; break; }
    case B_EQ0: { i128 s=t->kc; for(auto&p:*t->lin) s+=(i128)evalT(p.first)*p.second; r=s==0; break; }
    case T_ITE: case B_ITE: r=ev(t->a)? ev(t->b):ev(t->c); break;
    case T_UDIV: case T_UDIVT: { u64 d=ev(t->b); r=d?ev(t->a)/d:0; break; }
    case T_UREM: case T_UREMT: { u64 d=ev(t->b); r=d?ev(t->a)%d:ev(t->a); break; }
    case T_ZEXT: r=ev(t->a); break;
    case T_SEXT: r=sx(ev(t->a),t->c.c)&maskw(w); break;
    case T_TRUNC: r=ev(t->a)&maskw(w); break;
    case T_CONCAT: r=(ev(t->a)<<t->c.c)|ev(t->b); break;
    case T_ADD: r=(ev(t->a)+ev(t->b))&maskw(w); break;
    case T_SUB: r=(ev(t->a)-ev(t->b))&maskw(w); break;
    case T_MUL: r=(ev(t->a)*ev(t->b))&maskw(w); break;
    case T_AND: r=ev(t->a)&ev(t->b); break; case T_OR: r=ev(t->a)|ev(t->b); break; case T_XOR: r=ev(t->a)^ev(t->b); break;
    case T_SHL: { u64 s=ev(t->b); r=s>=w?0:(ev(t->a)<<s)&maskw(w); break; }
    case T_LSHR: { u64 s=ev(t->b); r=s>=w?0:ev(t->a)>>s; break; }
    case T_ASHR: { u64 s=ev(t->b); if(s>=w)s=w-1; r=(u64)((i64)sx(ev(t->a),w)>>s)&maskw(w); break; }
    case B_AND: r=ev(t->a)&&ev(t->b); break; case B_OR: r=ev(t->a)||ev(t->b); break; case B_NOT: r=!ev(t->a); break;
    case B_ULT: r=ev(t->a)<ev(t->b); break; case B_ULE: r=ev(t->a)<=ev(t->b); break; case B_EQ: r=ev(t->a)==ev(t->b); break;
    case B_SLT: r=(i64)sx(ev(t->a),t->c.c)<(i64)sx(ev(t->b),t->c.c); break; case B_SLE: r=(i64)sx(ev(t->a),t->c.c)<=(i64)sx(ev(t->b),t->c.c); break;
    case F_UITOFP: case F_SITOFP: case F_EXT: case F_TRUNC: case F_TOUI: case F_TOSI: case F_FLOOR: case F_CEIL: case F_RTZ: case F_RNA: case F_SQRT: r=mkFUn(t->k,K(ev(t->a)),t->c.c,w).c; break;
    case F_ADD: case F_SUB: case F_MUL: case F_DIV: r=fBin(t->k,ev(t->a),ev(t->b),w); break;
    case B_FCMP: r=fCmp(t->c.c&255,ev(t->a),ev(t->b),t->c.c>>8); break;
    default: fatal("eval kind %d",t->k);
  }
  t->estamp=g_stamp; t->eval=r; return r;
}
static u64 evalUnder(Val v, Model& m){ if(!v.t) return v.c; g_stamp++; g_m=&m; return evalT(v.t); }

static void z3err(Z3_context c, Z3_error_code e){ fatal("z3: %s",Z3_get_error_msg(c,e)); }
struct Solver {
  bool bv; Z3_context c=nullptr; Z3_solver s=nullptr; u32 epoch=0; std::vector<PNode*> stack; std::vector<std::pair<u32,Term*>> vars; std::unordered_map<Term*,bool> varDone; u64 nterms=0, nchecks=0; Z3_sort IS=nullptr; std::map<u64,Z3_ast> icache;
  Solver(bool b):bv(b){}
  void reset(){ if(c){ for(auto p:stack) pdrop(p); stack.clear(); Z3_solver_dec_ref(c,s); Z3_del_context(c); }
    Z3_config cfg=Z3_mk_config(); char b[32]; snprintf(b,32,"%u",g_qtimeout); Z3_set_param_value(cfg,"timeout",b); Z3_set_param_value(cfg,"model","true"); c=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c,z3err);
    s= bv? Z3_mk_simple_solver(c) : Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_LIA")); Z3_solver_inc_ref(c,s);
    static u32 ep=0; epoch=++ep; vars.clear(); varDone.clear(); nterms=0; nchecks=0; IS=Z3_mk_int_sort(c); Z3_inc_ref(c,Z3_sort_to_ast(c,IS)); icache.clear(); }
  Z3_ast inc(Z3_ast a){ Z3_inc_ref(c,a); return a; }
  static std::string i2s(i128 v){ bool n=v<0; u128 u=n?-(u128)v:(u128)v; std::string s; if(!u) s="0"; while(u){ s.insert(s.begin(),'0'+(int)(u%10)); u/=10; } if(n) s.insert(s.begin(),'-'); return s; }
  Z3_ast num(i128 v){ if(v>=INT64_MIN&&v<=INT64_MAX) return Z3_mk_int64(c,(i64)v,IS); return Z3_mk_numeral(c,i2s(v).c_str(),IS); }
  Z3_ast bnum(u128 v, unsigned w){ return Z3_mk_numeral(c,i2s((i128)v).c_str(),Z3_mk_bv_sort(c,w)); }
  // ---- integer encoding
  Z3_ast li(LinV&l, i128 k){ std::vector<Z3_ast> a; for(auto&p:l){ Z3_ast x=zi(p.first); if(p.second==1) a.push_back(x); else { Z3_ast m[2]={num(p.second),x}; a.push_back(Z3_mk_mul(c,2,m)); } } if(k!=0) a.push_back(num(k)); if(a.size()==1) return a[0]; return Z3_mk_add(c,a.size(),a.data()); }
  Z3_ast vi(Val v){ return v.t? zi(v.t) : num((i128)v.c); }
  Z3_ast vbool(Val v){ return v.t? zi(v.t) : (v.c?Z3_mk_true(c):Z3_mk_false(c)); }
  Z3_ast sgn(Val v, unsigned w){ Z3_ast x=vi(v); Z3_ast h=num((i128)1<<(w-1)); Z3_ast sub[2]={x,num((i128)1<<w)}; return Z3_mk_ite(c,Z3_mk_ge(c,x,h),Z3_mk_sub(c,2,sub),x); }
  Z3_ast zi(Term*t){
    if(t->zi&&t->zepoch==epoch) return (Z3_ast)t->zi;
    Z3_ast r=nullptr; unsigned w=t->w;
    switch(t->k){
      case T_VAR: { char b[32]; snprintf(b,32,"x%llu_%u",(unsigned long long)t->a.c,t->id); r=Z3_mk_const(c,Z3_mk_string_symbol(c,b),IS); break; }
      case T_LIN: r=li(*t->lin,t->kc); break;
      case B_LE0: { // sum <= -k
        r=Z3_mk_le(c,li(*t->lin,0),num(-t->kc)); break; }
      case B_EQ0: r=Z3_mk_eq(c,li(*t->lin,0),num(-t->kc)); break;
      case T_ITE: r=Z3_mk_ite(c,vbool(t->a),vi(t->b),vi(t->c)); break;
      case B_ITE: r=Z3_mk_ite(c,vbool(t->a),vbool(t->b),vbool(t->c)); break;
      case T_UDIV: r=Z3_mk_div(c,vi(t->a),num((i128)t->b.c)); break;
      case T_UREM: r=Z3_mk_mod(c,vi(t->a),num((i128)t->b.c)); break;
      case T_ZEXT: r=vi(t->a); break;
      case T_SEXT: { Z3_ast x=vi(t->a); unsigned wf=t->c.c; Z3_ast ad[2]={x,num(((i128)1<<w)-((i128)1<<wf))}; r=Z3_mk_ite(c,Z3_mk_ge(c,x,num((i128)1<<(wf-1))),Z3_mk_add(c,2,ad),x); break; }
      case T_TRUNC: if(vhi(t->a)<=maskw(w)) r=vi(t->a); else r=Z3_mk_mod(c,vi(t->a),num((i128)1<<w)); break;
      case T_CONCAT: { Z3_ast m[2]={num((i128)1<<t->c.c),vi(t->a)}; Z3_ast ad[2]={Z3_mk_mul(c,2,m),vi(t->b)}; r=Z3_mk_add(c,2,ad); break; }
      case T_ADD: { Z3_ast ad[2]={vi(t->a),vi(t->b)}; Z3_ast s=Z3_mk_add(c,2,ad); Z3_ast sb[2]={s,num((i128)1<<w)}; r=Z3_mk_ite(c,Z3_mk_ge(c,s,num((i128)1<<w)),Z3_mk_sub(c,2,sb),s); break; }
      case T_SUB: { Z3_ast sb[2]={vi(t->a),vi(t->b)}; Z3_ast s=Z3_mk_sub(c,2,sb); Z3_ast ad[2]={s,num((i128)1<<w)}; r=Z3_mk_ite(c,Z3_mk_lt(c,s,num(0)),Z3_mk_add(c,2,ad),s); break; }
      case T_MUL: { Z3_ast m[2]={num((i128)t->b.c),vi(t->a)}; r=Z3_mk_mod(c,Z3_mk_mul(c,2,m),num((i128)1<<w)); break; }
      case B_AND: { Z3_ast m[2]={vbool(t->a),vbool(t->b)}; r=Z3_mk_and(c,2,m); break; }
      case B_OR: { Z3_ast m[2]={vbool(t->a),vbool(t->b)}; r=Z3_mk_or(c,2,m); break; }
      case B_NOT: r=Z3_mk_not(c,vbool(t->a)); break;
      case B_ULT: r=Z3_mk_lt(c,vi(t->a),vi(t->b)); break; case B_ULE: r=Z3_mk_le(c,vi(t->a),vi(t->b)); break; case B_EQ: r=Z3_mk_eq(c,vi(t->a),vi(t->b)); break;
      case B_SLT: r=Z3_mk_lt(c,sgn(t->a,t->c.c),sgn(t->b,t->c.c)); break; case B_SLE: r=Z3_mk_le(c,sgn(t->a,t->c.c),sgn(t->b,t->c.c)); break;
      default: fatal("int encoding of kind %d",t->k);
    }
    inc(r); t->zi=r; t->zepoch=epoch; nterms++; return r;
  }
  // ---- bit-vector encoding
  Z3_ast bto(Val v, unsigned from, unsigned W){ if(!v.t) return bnum(W>=64?v.c:(v.c&maskw(W)),W); Z3_ast x=zb(v.t); from=v.t->w; if(from==W) return x; if(from<W) return Z3_mk_zero_ext(c,W-from,x); return Z3_mk_extract(c,W-1,0,x); }
  Z3_ast bb(Val v){ return v.t? zb(v.t) : (v.c?Z3_mk_true(c):Z3_mk_false(c)); }
  Z3_ast blin(LinV&l, i128 k, unsigned W){ u128 m = W>=128? ~(u128)0 : (((u128)1<<W)-1); auto cst=[&](i128 v){ u128 u=(u128)v&m; 
      // build from decimal of unsigned
      std::string s; if(!u) s="0"; while(u){ s.insert(s.begin(),'0'+(int)(u%10)); u/=10; } return Z3_mk_numeral(c,s.c_str(),Z3_mk_bv_sort(c,W)); };
    Z3_ast r=cst(k); for(auto&p:l){ Z3_ast x=bto(Val{0,p.first},p.first->w,W); if(p.second!=1) x=Z3_mk_bvmul(c,cst(p.second),x); r=Z3_mk_bvadd(c,r,x); } return r; }
  static unsigned linW(LinV&l, i128 k){ u128 s=k<0?-(u128)k:(u128)k; for(auto&p:l){ u128 q=p.second<0?-(u128)p.second:(u128)p.second; s+=q*p.first->hi; } unsigned b=0; while(s){ b++; s>>=1; } return b+2; }
  Z3_ast zb(Term*t){
    if(t->zb&&t->zbepoch==epoch) return (Z3_ast)t->zb;
    Z3_ast r=nullptr; unsigned w=t->w;
    switch(t->k){
      case T_VAR: { char b[32]; snprintf(b,32,"x%llu_%u",(unsigned long long)t->a.c,t->id); r=Z3_mk_const(c,Z3_mk_string_symbol(c,b),Z3_mk_bv_sort(c,w)); break; }
      case T_LIN: r=blin(*t->lin,t->kc,w); break;
      case B_LE0: { unsigned W=linW(*t->lin,t->kc); r=Z3_mk_bvsle(c,blin(*t->lin,t->kc,W),bnum(0,W)); break; }
      case B_EQ0: { unsigned W=linW(*t->lin,t->kc); r=Z3_mk_eq(c,blin(*t->lin,t->kc,W),bnum(0,W)); break; }
      case T_ITE: r=Z3_mk_ite(c,bb(t->a),bto(t->b,w,w),bto(t->c,w,w)); break;
      case B_ITE: r=Z3_mk_ite(c,bb(t->a),bb(t->b),bb(t->c)); break;
      case T_UDIV: case T_UDIVT: r=Z3_mk_bvudiv(c,bto(t->a,w,w),bto(t->b,w,w)); break;
      case T_UREM: case T_UREMT: r=Z3_mk_bvurem(c,bto(t->a,w,w),bto(t->b,w,w)); break;
      case T_ZEXT: r=bto(t->a,0,w); break;
      case T_SEXT: { unsigned wf=t->c.c; r=Z3_mk_sign_ext(c,w-wf,bto(t->a,wf,wf)); break; }
      case T_TRUNC: r=Z3_mk_extract(c,w-1,0,zb(t->a.t)); break;
      case T_CONCAT: r=Z3_mk_concat(c,bto(t->a,0,w-t->c.c),bto(t->b,0,t->c.c)); break;
      case T_ADD: r=Z3_mk_bvadd(c,bto(t->a,w,w),bto(t->b,w,w)); break; case T_SUB: r=Z3_mk_bvsub(c,bto(t->a,w,w),bto(t->b,w,w)); break; case T_MUL: r=Z3_mk_bvmul(c,bto(t->a,w,w),bto(t->b,w,w)); break;
      case T_AND: r=Z3_mk_bvand(c,bto(t->a,w,w),bto(t->b,w,w)); break; case T_OR: r=Z3_mk_bvor(c,bto(t->a,w,w),bto(t->b,w,w)); break; case T_XOR: r=Z3_mk_bvxor(c,bto(t->a,w,w),bto(t->b,w,w)); break;
      case T_SHL: r=Z3_mk_bvshl(c,bto(t->a,w,w),bto(t->b,w,w)); break; case T_LSHR: r=Z3_mk_bvlshr(c,bto(t->a,w,w),bto(t->b,w,w)); break; case T_ASHR: r=Z3_mk_bvashr(c,bto(t->a,w,w),bto(t->b,w,w)); break;
      case B_AND: { Z3_ast m[2]={bb(t->a),bb(t->b)}; r=Z3_mk_and(c,2,m); break; }
      case B_OR: { Z3_ast m[2]={bb(t->a),bb(t->b)}; r=Z3_mk_or(c,2,m); break; }
      case B_NOT: r=Z3_mk_not(c,bb(t->a)); break;
      case B_ULT: case B_ULE: case B_EQ: { unsigned W=64; Z3_ast x=bto(t->a,0,W), y=bto(t->b,0,W); r=t->k==B_ULT?Z3_mk_bvult(c,x,y):t->k==B_ULE?Z3_mk_bvule(c,x,y):Z3_mk_eq(c,x,y); break; }
      case B_SLT: case B_SLE: { unsigned W=t->c.c; Z3_ast x=bto(t->a,W,W), y=bto(t->b,W,W); r=t->k==B_SLT?Z3_mk_bvslt(c,x,y):Z3_mk_bvsle(c,x,y); break; }
      case F_UITOFP: case F_SITOFP: case F_EXT: case F_TRUNC: case F_FLOOR: case F_CEIL: case F_RTZ: case F_RNA: case F_SQRT: case F_ADD: case F_SUB: case F_MUL: case F_DIV: r=Z3_mk_fpa_to_ieee_bv(c,zf(Val{0,t},w)); break;
      case F_TOUI: case F_TOSI: { unsigned wf=t->c.c; Z3_sort fs=fsort(wf); Z3_ast x=zf(t->a,wf), z=Z3_mk_fpa_zero(c,fs,false); bool sg=t->k==F_TOSI; Z3_ast lim=Z3_mk_fpa_numeral_double(c,ldexp(1.0,sg?w-1:w),fs), neg=Z3_mk_fpa_numeral_double(c,-ldexp(1.0,w-1),fs); Z3_ast rtz=Z3_mk_fpa_rtz(c);
        r= sg? Z3_mk_ite(c,Z3_mk_fpa_lt(c,x,neg),bnum((u128)1<<(w-1),w),Z3_mk_fpa_to_sbv(c,rtz,x,w)) : Z3_mk_ite(c,Z3_mk_fpa_gt(c,x,z),Z3_mk_fpa_to_ubv(c,rtz,x,w),bnum(0,w));
        r=Z3_mk_ite(c,Z3_mk_fpa_geq(c,x,lim),bnum(sg?maskw(w)>>1:maskw(w),w),r); if(sg) r=Z3_mk_ite(c,Z3_mk_fpa_is_nan(c,x),bnum(0,w),r); break; }
      case B_FCMP: { unsigned wf=t->c.c>>8, p=t->c.c&255; Z3_ast x=zf(t->a,wf), y=zf(t->b,wf); Z3_ast nn[2]={Z3_mk_fpa_is_nan(c,x),Z3_mk_fpa_is_nan(c,y)}; Z3_ast un=Z3_mk_or(c,2,nn);
        Z3_ast q=nullptr; switch(p&7){ case 1:q=Z3_mk_fpa_eq(c,x,y);break; case 2:q=Z3_mk_fpa_gt(c,x,y);break; case 3:q=Z3_mk_fpa_geq(c,x,y);break; case 4:q=Z3_mk_fpa_lt(c,x,y);break; case 5:q=Z3_mk_fpa_leq(c,x,y);break; case 6:q=Z3_mk_not(c,Z3_mk_fpa_eq(c,x,y));break; default: break; }
        if(p==0) r=Z3_mk_false(c); else if(p==7) r=Z3_mk_not(c,un); else if(p==14) r=un; else if(p==15) r=Z3_mk_true(c);
        else { if(p==8) q=Z3_mk_fpa_eq(c,x,y); else if(p>8){ switch(p){ case 9:q=Z3_mk_fpa_gt(c,x,y);break; case 10:q=Z3_mk_fpa_geq(c,x,y);break; case 11:q=Z3_mk_fpa_lt(c,x,y);break; case 12:q=Z3_mk_fpa_leq(c,x,y);break; default:q=Z3_mk_not(c,Z3_mk_fpa_eq(c,x,y)); } }
          Z3_ast g[2]={p>=8?un:Z3_mk_not(c,un),q}; r=p>=8? Z3_mk_or(c,2,g) : Z3_mk_and(c,2,g); }
        break; }
      default: fatal("bv encoding of kind %d",t->k);
    }
    inc(r); t->zb=r; t->zbepoch=epoch; nterms++; return r;
  }
  Z3_sort fsort(unsigned w){ return w==32? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
  Z3_ast zf(Val v, unsigned w){ // as a floating-point number
    Z3_sort fs=fsort(w); Term*t=v.t; Z3_ast rm=t?Z3_mk_fpa_rne(c):nullptr;
    if(t) switch(t->k){
      case F_UITOFP: return Z3_mk_fpa_to_fp_unsigned(c,rm,bto(t->a,0,t->c.c),fs);
      case F_SITOFP: return Z3_mk_fpa_to_fp_signed(c,rm,bto(t->a,0,t->c.c),fs);
      case F_EXT: return Z3_mk_fpa_to_fp_float(c,rm,zf(t->a,32),fs); case F_TRUNC: return Z3_mk_fpa_to_fp_float(c,rm,zf(t->a,64),fs);
      case F_FLOOR: case F_CEIL: case F_RTZ: case F_RNA: return Z3_mk_fpa_round_to_integral(c,t->k==F_FLOOR?Z3_mk_fpa_rtn(c):t->k==F_CEIL?Z3_mk_fpa_rtp(c):t->k==F_RTZ?Z3_mk_fpa_rtz(c):Z3_mk_fpa_rna(c),zf(t->a,w)); case F_SQRT: return Z3_mk_fpa_sqrt(c,rm,zf(t->a,w));
      case F_ADD: return Z3_mk_fpa_add(c,rm,zf(t->a,w),zf(t->b,w)); case F_SUB: return Z3_mk_fpa_sub(c,rm,zf(t->a,w),zf(t->b,w)); case F_MUL: return Z3_mk_fpa_mul(c,rm,zf(t->a,w),zf(t->b,w)); case F_DIV: return Z3_mk_fpa_div(c,rm,zf(t->a,w),zf(t->b,w));
      default: break; }
    return Z3_mk_fpa_to_fp_bv(c,bto(v,w,w),fs); }
  void collectVars(Term*t, std::vector<Term*>& out, std::unordered_set<Term*>& seen){ if(!t||!seen.insert(t).second) return; if(t->k==T_VAR){ out.push_back(t); return; } if(t->lin) for(auto&p:*t->lin) collectVars(p.first,out,seen); collectVars(t->a.t,out,seen); collectVars(t->b.t,out,seen); collectVars(t->c.t,out,seen); }
  void assertCond(Val v, u32 depth){
    std::vector<Term*> vs; std::unordered_set<Term*> seen; collectVars(v.t,vs,seen);
    for(auto x:vs) if(!varDone.count(x)){ varDone[x]=true; vars.push_back({depth,x}); if(bv){ if(x->lo>0) Z3_solver_assert(c,s,Z3_mk_bvuge(c,zb(x),bnum(x->lo,x->w))); if(x->hi<maskw(x->w)) Z3_solver_assert(c,s,Z3_mk_bvule(c,zb(x),bnum(x->hi,x->w))); } else { Z3_solver_assert(c,s,Z3_mk_ge(c,zi(x),num((i128)x->lo))); Z3_solver_assert(c,s,Z3_mk_le(c,zi(x),num((i128)x->hi))); } }
    Z3_solver_assert(c,s, bv? bb(v) : vbool(v));
  }
  void popTo(u32 d){ if(stack.size()>d){ Z3_solver_pop(c,s,stack.size()-d); while(stack.size()>d){ pdrop(stack.back()); stack.pop_back(); } while(!vars.empty()&&vars.back().first>d){ varDone.erase(vars.back().second); vars.pop_back(); } } }
  void sync(PNode*p){
    if(!c||nterms>60000||++nchecks>20000) reset();
    std::vector<PNode*> path; for(PNode*q=p;q;q=q->parent){ if(q->depth<=stack.size()&&stack[q->depth-1]==q) break; path.push_back(q); }
    u32 common=path.empty()? (p?p->depth:0) : path.back()->depth-1; popTo(common);
    for(size_t i=path.size();i-->0;){ PNode*q=path[i]; Z3_solver_push(c,s); q->rc++; stack.push_back(q); assertCond(q->cond,q->depth); }
  }
  // 1 sat (model filled), 0 unsat, -1 unknown
  int check(PNode*p, Val extra, Model& m, const std::vector<Term*>& allv){
    sync(p); u32 d=stack.size(); 
    if(extra.t||!extra.c){ if(!extra.t) return 0; Z3_solver_push(c,s); assertCond(extra,d+1); }
    double t0=now(); Z3_lbool r=Z3_solver_check(c,s); u64 us=(u64)((now()-t0)*1e6); ES->solver_us+=us;
    if(g_dump&&g_dumpEvery&&(g_dumpCnt++%g_dumpEvery)==0){ fprintf(g_dump,"; expect %s\n(push)\n%s(check-sat)\n(pop)\n",r==Z3_L_TRUE?"sat":r==Z3_L_FALSE?"unsat":"unknown",Z3_solver_to_string(c,s)); fflush(g_dump); }
    if(r==Z3_L_TRUE){ ES->q_sat++; Z3_model mo=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,mo);
      for(auto&v:vars){ Term*x=v.second; Z3_ast a; if(x->a.c<m.size()&&Z3_model_eval(c,mo,bv?zb(x):zi(x),true,&a)){ Z3_inc_ref(c,a); u64 val; if(Z3_get_ast_kind(c,a)==Z3_NUMERAL_AST&&Z3_get_numeral_uint64(c,a,(uint64_t*)&val)) m[x->a.c]=val; else fatal("model value"); Z3_dec_ref(c,a);} }
      Z3_model_dec_ref(c,mo); }
    else if(r==Z3_L_FALSE) ES->q_unsat++; else ES->q_unknown++;
    if(extra.t){ Z3_solver_pop(c,s,1); while(!vars.empty()&&vars.back().first>d){ varDone.erase(vars.back().second); vars.pop_back(); } }
    (void)allv;
    return r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  }
};
static Solver SI(false), SB(true);

// ------------------------------------------------------------------ states
struct Frame { int rc=1; Func* f; u32 pc=0; Val* r; std::vector<u32> allocas; i32 dst=-1; u32 dstn=0; i32 tryDst=-1; u32 oldCap=0; };
static Frame* newFrame(Func*f){ Frame*x=new Frame; x->f=f; x->r=(Val*)calloc(f->nslots?f->nslots:1,sizeof(Val)); return x; }
static void dropFrame(Frame*x){ if(--x->rc==0){ free(x->r); delete x; } }
static Frame* cloneFrame(Frame*x){ Frame*n=new Frame(*x); n->rc=1; n->r=(Val*)malloc(sizeof(Val)*(x->f->nslots?x->f->nslots:1)); memcpy((void*)n->r,x->r,sizeof(Val)*x->f->nslots); return n; }
struct VFile { std::vector<Val> bytes; };
struct VFd { bool open=false; int file=-1; u64 pos=0; bool rd=false, wr=false, app=false; };
struct FS { std::map<std::string,int> names; std::vector<VFile> files; std::vector<VFd> fds; Val limit=K(~0ull); };
struct Inp { u8 kind; Val v; }; // 0 sym, 1 choose
struct State;
// two threads (fpv_par): first run one after the other while recording who touches what; if they touch the same memory and
// one of them writes, all interleavings at such accesses are explored as well (bounded number of preemptions)
struct ParPlan { std::unordered_set<u64> conf; int round=0; };
struct Par { int cur=0, preempt=0, run=0; bool explore=false, skip[2]={false,false}, done[2]={false,false}, blocked[2]={false,false}; std::vector<Frame*> other, mainFr; u32 firstPriv=0; std::unordered_map<u64,u8> acc; std::map<std::pair<int,u32>,u32> tls; std::shared_ptr<State> snap; std::shared_ptr<ParPlan> plan;
  Par(){} Par(const Par& o)=default; void ref(){ for(auto f:other) f->rc++; for(auto f:mainFr) f->rc++; } ~Par(){ for(auto f:other) dropFrame(f); for(auto f:mainFr) dropFrame(f); } };
static u64 g_work=0; // work of the running path: instructions, and 8 bytes of block operations
struct State {
  u32 depthCap=6000; u64 work=0;
  Mem mem; std::vector<Frame*> fr; PNode* path=nullptr; std::shared_ptr<Model> model; std::vector<Term*> vars; std::vector<Inp> inputs; std::vector<std::pair<u64,Val>> obs;
  std::unordered_map<u32,bool> known; u64 insts=0; u32 forks=0; bool expectPanic=false; u64 rng=0x1234; std::shared_ptr<FS> fs; u64 reach=0; int nextKey=1; std::map<u64,u64> tls; Val choice=K(0); bool haveChoice=false; Par* par=nullptr; std::shared_ptr<ParPlan> plan; bool threads=false; // an interleaving other than A;B
  State():model(std::make_shared<Model>()),fs(std::make_shared<FS>()){}
  State(const State& o):depthCap(o.depthCap),work(g_work),mem(o.mem),fr(o.fr),path(o.path),model(o.model),vars(o.vars),inputs(o.inputs),obs(o.obs),known(o.known),insts(o.insts),forks(o.forks),expectPanic(o.expectPanic),rng(o.rng),fs(o.fs),reach(o.reach),nextKey(o.nextKey),tls(o.tls),choice(o.choice),haveChoice(o.haveChoice),plan(o.plan),threads(o.threads){ for(auto f:fr) f->rc++; if(path) path->rc++; if(o.par){ par=new Par(*o.par); par->ref(); } }
  ~State(){ for(auto f:fr) dropFrame(f); pdrop(path); delete par; }
  Frame* top(){ Frame*&f=fr.back(); if(f->rc>1){ Frame*n=cloneFrame(f); f->rc--; f=n; } return f; }
};
static std::vector<State*> pending;
static Module M;
struct PathEnd { int kind; std::string msg; }; // 0 ok 1 assumed away 2 violation 3 limit 4 unsupported 5 unknown 6 stop
enum { PE_OK,PE_ASSUME,PE_VIOL,PE_LIMIT,PE_UNSUP,PE_UNKNOWN,PE_STOP,PE_TIMEOUT };

static State* S; // current
static State* g_init=nullptr; // state before any code has run (initial values of thread locals)
static std::string demangleish(const std::string& n){ return n; }
static std::string stackTrace(){ std::string s; for(size_t i=S->fr.size();i-->0&&s.size()<1500;){ if(!s.empty()) s+=" < "; s+=demangleish(S->fr[i]->f->name); } return s; }
static std::string inputsStr(Model& m){ std::string s; char b[32]; for(auto&i:S->inputs){ snprintf(b,32,"%llu ",(unsigned long long)evalUnder(i.v,m)); s+=b; } return s; }
static std::string obsStr(Model& m){ std::string s; char b[64]; for(auto&o:S->obs){ snprintf(b,64,"%llu:%llu ",(unsigned long long)o.first,(unsigned long long)evalUnder(o.second,m)); s+=b; } return s; }
static std::string esc(const std::string& s){ std::string r; for(char c:s) r+= (c=='|'||(u8)c<32||(u8)c>126)?' ':c=='"'?'\'':c; return r; }
static void violation(const char* kind, const std::string& msg, Model& m){
  u64 n=ES->violations++; if(n<g_maxviol) emit("V|"+std::to_string(curEntry)+"|"+kind+(S->threads?"@threads":"")+"|"+esc(msg)+"|"+inputsStr(m)+"|"+obsStr(m)+"|"+stackTrace());
  if(n+1>=g_maxviol) ES->stop=1;
}
static bool modelOk(PNode*p, Model& m){ for(PNode*q=p;q;q=q->parent) if(!evalUnder(q->cond,m)) return false; return true; }
static int solve(PNode*p, Val extra, Model& m){
  bool needBV = g_bvonly || (p&&p->hasBV) || (extra.t&&!extra.t->intok);
  if(needBV) ES->q_bv++;
  int r=(needBV?SB:SI).check(p,extra,m,S->vars);
  if(r<0&&!needBV){ ES->q_bv++; r=SB.check(p,extra,m,S->vars); }
  if(r==1){ if(!modelOk(p,m)||(extra.t&&!evalUnder(extra,m))) fatal("model does not satisfy the path condition"); }
  return r;
}
static void addCond(State*s, Val c){ s->path=ppush(s->path,c); Term*t=c.t; bool pol=true; while(t->k==B_NOT){ pol=!pol; t=t->a.t; } s->known[t->id]=pol; }
static void checkTime(){ if(now()>g_deadline) throw PathEnd{PE_TIMEOUT,"deadline"}; if(ES->stop.load()) throw PathEnd{PE_STOP,""}; }
static void maybeGive();
static std::string termStr(Val v, int depth){ char b[64]; if(!v.t){ snprintf(b,64,"%llu",(unsigned long long)v.c); return b; } Term*t=v.t; snprintf(b,64,"k%d:%d<%llu..%llu>",t->k,t->w,(unsigned long long)t->lo,(unsigned long long)t->hi); std::string s=b; if(!depth) return s; s+="("; if(t->lin){ for(auto&p:*t->lin) s+=std::to_string(p.second)+"*"+termStr(Val{0,p.first},depth-1)+" + "; s+=std::to_string((i64)t->kc); } else { s+=termStr(t->a,depth-1)+","+termStr(t->b,depth-1)+","+termStr(t->c,depth-1);} return s+")"; }
// decide a boolean; forks the state when both sides are possible
static bool decide(Val c){
  if(!c.t) return c.c&1;
  Term*t=c.t; bool pol=true; while(t->k==B_NOT){ pol=!pol; t=t->a.t; }
  auto it=S->known.find(t->id); if(it!=S->known.end()) return it->second==pol;
  checkTime(); ES->decisions++;
  Val atom{0,t}; bool cur=evalUnder(atom,*S->model); Val other=cur?mkNot(atom):atom;
  Model m=*S->model; double tq=g_trace?now():0; int r=solve(S->path,other,m); if(g_trace) fprintf(stderr,"decide %d %dms intok %d %s [%s]\n",r,(int)((now()-tq)*1000/10)*10,(int)t->intok,stackTrace().substr(0,120).c_str(),termStr(atom,5).c_str());
  if(r<0) { ES->q_unknown++; throw PathEnd{PE_UNKNOWN,"solver gave no answer"}; }
  if(r==0){ S->known[t->id]=cur; ES->implied++; return cur==pol; }
  State* n=new State(*S); n->model=std::make_shared<Model>(m); addCond(n,other); n->forks++; pending.push_back(n);
  addCond(S,cur?atom:mkNot(atom)); S->forks++; ES->forks++;
  maybeGive();
  return cur==pol;
}
static u64 concretize(Val v, unsigned w){
  if(!v.t) return v.c;
  ES->concretized++; if(g_trace) fprintf(stderr,"conc %s [%s]\n",stackTrace().substr(0,220).c_str(),termStr(v,3).c_str());
  while(v.t&&v.t->k==T_ITE){ if(decide(v.t->a)) v=v.t->b; else v=v.t->c; }
  if(!v.t) return v.c;
  for(int i=0;i<100000;i++){ u64 k=evalUnder(v,*S->model); if(decide(mkCmpEq(v,K(k),w))) return k; }
  throw PathEnd{PE_LIMIT,"concretization"};
}
static void memFault(const char* what, u64 a, u64 n){ char b[160]; snprintf(b,160,"memory fault: %s at %llx size %llu",what,(unsigned long long)a,(unsigned long long)n); violation("memory",b,*S->model); throw PathEnd{PE_VIOL,b}; }
static void parNote(u64 a, u64 n, bool w){ Par*P=S->par; u32 id=a>>32; if(id>=P->firstPriv||id<2||!n) return; if(!w){ const Obj*o=S->mem.get(id); if(o&&o->kind==4) return; } u8 b=(w?2:1)<<(2*P->cur); for(u64 g=a>>3;g<=(a+n-1)>>3;g++) P->acc[g]|=b; }
static inline const Obj* rdObj(u64 a, u64 n){ if(S->par) parNote(a,n,false); u32 id=a>>32, off=(u32)a; const Obj*o=S->mem.get(id); if(!o||(u64)off+n>o->size) memFault(o?"out of bounds read":"read of invalid pointer",a,n); return o; }
static inline Obj* wrObj(u64 a, u64 n){ if(S->par) parNote(a,n,true); u32 id=a>>32, off=(u32)a; Obj*o=S->mem.get(id); if(!o||(u64)off+n>o->size) memFault(o?"out of bounds write":"write of invalid pointer",a,n); if(o->kind==4) memFault("write to constant",a,n); return S->mem.getw(id); }
static Val loadAt(u64 a, unsigned n){ return loadN(rdObj(a,n),(u32)a,n); }
static void storeAt(u64 a, unsigned n, Val v){ storeN(wrObj(a,n),(u32)a,n,v); }
static Val loadBits(u64 a, unsigned bits){ unsigned n=(bits+7)/8; Val v=loadAt(a,n); if(n*8!=bits) v=mkTrunc(v,n*8,bits); return v; }
static void storeBits(u64 a, unsigned bits, Val v){ unsigned n=(bits+7)/8; if(n*8!=bits) v=mkZext(v,bits,n*8); else if(!v.t) v.c&=maskw(bits); storeAt(a,n,v); }
static void memcopy(u64 d, u64 s, u64 n){
  if(!n) return; const Obj*so=rdObj(s,n); u32 soff=(u32)s; std::vector<u8> tmp(so->d+soff,so->d+soff+n); std::vector<Ov> ovs;
  for(auto it=std::upper_bound(so->ov.begin(),so->ov.end(),soff,[](u32 a,const Ov&b){return a<b.off+b.n;}); it!=so->ov.end()&&it->off<soff+n; ++it){
    if(it->off>=soff&&it->off+it->n<=soff+n) ovs.push_back({it->off-soff,it->n,it->t});
    else for(u32 b=0;b<it->n;b++){ u32 q=it->off+b; if(q>=soff&&q<soff+n){ Val x=mkExtractByte(Val{0,it->t},it->n*8,b); if(x.t) ovs.push_back({q-soff,1,x.t}); else tmp[q-soff]=(u8)x.c; } } }
  Obj*o=wrObj(d,n); u32 off=(u32)d; clearOv(o,off,n); memcpy(o->d+off,tmp.data(),n);
  if(!ovs.empty()){ auto it=std::lower_bound(o->ov.begin(),o->ov.end(),off,[](const Ov&b,u32 a){return b.off<a;}); for(auto&v:ovs) v.off+=off; o->ov.insert(it,ovs.begin(),ovs.end()); }
}
static std::string cstr(u64 a){ std::string s; while(true){ Val v=loadAt(a+s.size(),1); u64 c=concretize(v,8); if(!c) break; s+=(char)c; if(s.size()>4096) break; } return s; }
// a load from a constant table at a symbolic index, as a term: base + k, base + k/10, base + k%10 or a few ranges
static bool isConstTable(u64 a){ const Obj*o=S->mem.get(a>>32); return o&&o->kind==4&&o->size>0; }
static bool tableTerm(const std::vector<u64>& v, Val k, unsigned bits, Val& r){ // v[i]: value for k==i
  size_t n=v.size(); bool same=true; for(auto x:v) same=same&&x==v[0]; if(same){ r=K(v[0]); return true; }
  auto test=[&](auto f){ u64 c=(v[0]-f(0))&maskw(bits); for(size_t i=0;i<n;i++) if(((c+f(i))&maskw(bits))!=v[i]) return false; return true; };
  auto fin=[&](Val x, u64 f0){ if(vhi(x)>maskw(bits)) return false; Val y=bits<64?mkTrunc(x,64,bits):x; r=mkAdd(y,K((v[0]-f0)&maskw(bits)),bits); return true; };
  if(test([](u64 i){return i;})) return fin(k,0);
  if(test([](u64 i){return i%10;})) return fin(mkUrem(k,K(10),64),0);
  if(test([](u64 i){return i/10;})) return fin(mkUdiv(k,K(10),64),0);
  size_t runs=1; for(size_t i=1;i<n;i++) if(v[i]!=v[i-1]) runs++;
  if(runs>24) return false;
  size_t i=n; while(i>0&&v[i-1]==v[n-1]) i--; r=K(v[n-1]);
  while(i>0){ size_t j=i; u64 x=v[i-1]; while(j>0&&v[j-1]==x) j--; r=mkIte(mkUlt(k,K(i),64),K(x),r,bits); i=j; }
  return true;
}
static bool tableLoad(Val p, unsigned n, Val& r){
  Term*t=p.t; if(t->k!=T_LIN||(t->lo>>32)!=((t->hi+n-1)>>32)||t->hi-t->lo>(1u<<16)) return false;
  const Obj*o=S->mem.get(t->lo>>32); if(!o||o->kind!=4||!o->ov.empty()||(u64)(u32)t->hi+n>o->size) return false;
  i64 g=0; i128 lo=t->kc; for(auto&q:*t->lin){ if(q.second<=0) return false; g=gcd64(g,q.second); lo+=(i128)q.first->lo*q.second; }
  if(lo!=(i128)t->lo) return false;
  u64 cnt=(t->hi-t->lo)/g+1; if(cnt>1024) return false;
  Lin l; for(auto&q:*t->lin) linAddTerm(l,q.first,q.second/g); i128 k0=0; for(auto&q:*t->lin) k0+=(i128)q.first->lo*(q.second/g); 
  // index counted from 0 if the table reaches that far back, so that the digit patterns line up
  u32 off=(u32)t->lo; u64 back=0; if(k0>0&&k0<1024&&(u64)k0*g<=off){ back=k0; } l.k+=(i128)back-k0; 
  u64 a,b; if(!linFits(l,64,a,b)) return false; Val k=linVal(l,64,a,b);
  std::vector<std::pair<Val,unsigned>> parts;
  for(unsigned j=0;j<n;j++){ std::vector<u64> v; for(u64 i=0;i<cnt+back;i++) v.push_back(o->d[off-back*g+i*g+j]); Val x; if(!tableTerm(v,k,8,x)) return false; parts.push_back({x,8}); }
  r=combine(parts); return true;
}
static u64 allocMem(u64 n, u8 fill){ if(n>(1ull<<31)) return 0; return (u64)S->mem.add(newObj(n,1,fill))<<32; }

// ------------------------------------------------------------------ builtins
enum B_ : int { BI_SYM=0,BI_CHOOSE,BI_ASSUME,BI_ASSERT,BI_OBSERVE,BI_REACH,BI_EXPECT,BI_ITE,BI_SEED,BI_AND,BI_OR,BI_LE,BI_LT,BI_EQ,
  BI_MALLOC,BI_CALLOC,BI_REALLOC,BI_FREE,BI_PMEMALIGN,BI_BCMP,BI_MEMCMP,BI_STRLEN,BI_ERRNO,BI_GETRANDOM,BI_SYSCALL,BI_ABORT,BI_OPEN,BI_CLOSE,BI_READ,BI_WRITE,BI_LSEEK,BI_STATFAIL,BI_PKC,BI_PKD,BI_PSS,BI_GETENV,BI_RET0,BI_MEMCHR,BI_MEMRCHR,BI_UNLINK,BI_WRITEV,BI_PARAM,BI_LIMIT,BI_HEAP,BI_CLOCK,BI_RMEMCHR,BI_PAR,BI_TRY,BI_SHALLOW,BI_REPS,BI_WORK,BI_YIELD,
  L_MEMCPY,L_MEMSET,L_UMIN,L_UMAX,L_SMIN,L_SMAX,L_UCMP,L_SCMP,L_USUBSAT,L_UADDSAT,L_UADDO,L_USUBO,L_UMULO,L_SADDO,L_SSUBO,L_SMULO,L_FSHL,L_FSHR,L_CTLZ,L_CTTZ,L_CTPOP,L_BSWAP,L_BITREV,L_ABS,L_TRAP,L_ISCONST,L_TLS,L_FPTOUISAT,L_EXPECT,L_FABS,L_FFLOOR,L_SQRT,L_FPTOSISAT,L_FMIN,L_FMAX,L_FMA,L_FCEIL,L_FTRUNC,L_FROUND,L_VREDUCE };
static int builtinId(const std::string& n){
  static const std::unordered_map<std::string,int> m={{"fpv_sym",BI_SYM},{"fpv_choose",BI_CHOOSE},{"fpv_assume",BI_ASSUME},{"fpv_assert",BI_ASSERT},{"fpv_observe",BI_OBSERVE},{"fpv_reach",BI_REACH},{"fpv_expect_panic",BI_EXPECT},{"fpv_ite",BI_ITE},{"fpv_seed",BI_SEED},{"fpv_param",BI_PARAM},{"fpv_limit",BI_LIMIT},{"fpv_heap",BI_HEAP},{"clock_gettime",BI_CLOCK},{"fpv_and",BI_AND},{"fpv_par",BI_PAR},{"fpv_try",BI_TRY},{"fpv_shallow",BI_SHALLOW},{"fpv_reps",BI_REPS},{"fpv_tries",BI_REPS},{"fpv_work",BI_WORK},{"sched_yield",BI_YIELD},{"fpv_or",BI_OR},{"fpv_le",BI_LE},{"fpv_lt",BI_LT},{"fpv_eq",BI_EQ},
   {"malloc",BI_MALLOC},{"calloc",BI_CALLOC},{"realloc",BI_REALLOC},{"free",BI_FREE},{"posix_memalign",BI_PMEMALIGN},{"bcmp",BI_BCMP},{"memcmp",BI_MEMCMP},{"strlen",BI_STRLEN},{"__errno_location",BI_ERRNO},{"getrandom",BI_GETRANDOM},{"syscall",BI_SYSCALL},{"abort",BI_ABORT},{"_exit",BI_ABORT},{"exit",BI_ABORT},{"open64",BI_OPEN},{"open",BI_OPEN},{"close",BI_CLOSE},{"read",BI_READ},{"write",BI_WRITE},{"writev",BI_WRITEV},{"lseek64",BI_LSEEK},{"lseek",BI_LSEEK},{"fstat64",BI_STATFAIL},{"stat64",BI_STATFAIL},{"statx",BI_STATFAIL},{"pthread_key_create",BI_PKC},{"pthread_key_delete",BI_PKD},{"pthread_setspecific",BI_PSS},{"getenv",BI_GETENV},{"__cxa_thread_atexit_impl",BI_RET0},{"memchr",BI_MEMCHR},{"memrchr",BI_MEMRCHR},{"unlink",BI_UNLINK},{"unlink64",BI_UNLINK},{"fsync",BI_RET0},{"fdatasync",BI_RET0},{"fcntl",BI_RET0},{"fcntl64",BI_RET0},{"memcpy",L_MEMCPY},{"memmove",L_MEMCPY},{"memset",L_MEMSET}};
  auto it=m.find(n); if(it!=m.end()) return it->second;
  // std's word-at-a-time byte search, by its contract (same as for memchr, its platform variant)
  if(n.size()>29&&n.compare(n.size()-29,29,"5slice6memchr14memchr_aligned")==0) return BI_RMEMCHR;
  if(n.substr(0,5)!="llvm.") return -1;
  auto pre=[&](const char*p){ return n.compare(5,strlen(p),p)==0; };
  if(pre("memcpy")||pre("memmove")) return L_MEMCPY; if(pre("memset")) return L_MEMSET;
  if(pre("umin.")) return L_UMIN; if(pre("umax.")) return L_UMAX; if(pre("smin.")) return L_SMIN; if(pre("smax.")) return L_SMAX; if(pre("ucmp")) return L_UCMP; if(pre("scmp")) return L_SCMP;
  if(pre("usub.sat")) return L_USUBSAT; if(pre("uadd.sat")) return L_UADDSAT; if(pre("uadd.with")) return L_UADDO; if(pre("usub.with")) return L_USUBO; if(pre("umul.with")) return L_UMULO; if(pre("sadd.with")) return L_SADDO; if(pre("ssub.with")) return L_SSUBO; if(pre("smul.with")) return L_SMULO;
  if(pre("fshl")) return L_FSHL; if(pre("fshr")) return L_FSHR; if(pre("ctlz")) return L_CTLZ; if(pre("cttz")) return L_CTTZ; if(pre("ctpop")) return L_CTPOP; if(pre("bswap")) return L_BSWAP; if(pre("bitreverse")) return L_BITREV; if(pre("abs.")) return L_ABS; if(pre("trap")||pre("ubsantrap")) return L_TRAP; if(pre("is.constant")) return L_ISCONST; if(pre("threadlocal.address")) return L_TLS; if(pre("fptoui.sat")) return L_FPTOUISAT; if(pre("fptosi.sat")) return L_FPTOSISAT; if(pre("expect")||pre("launder")) return L_EXPECT; if(pre("fabs")) return L_FABS; if(pre("floor")) return L_FFLOOR; if(pre("ceil")) return L_FCEIL; if(pre("trunc.f")) return L_FTRUNC; if(pre("round.f")) return L_FROUND; if(pre("minnum")||pre("minimumnum")) return L_FMIN; if(pre("maxnum")||pre("maximumnum")) return L_FMAX; if(pre("fmuladd")) return L_FMA; if(pre("sqrt")) return L_SQRT;
  return -1;
}
static u64 splitmix(u64& s){ u64 z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static u32 errnoId=0;
static FS& fsw(){ if(S->fs.use_count()>1) S->fs=std::make_shared<FS>(*S->fs); return *S->fs; }
static void setErrno(int e){ storeAt((u64)errnoId<<32,4,K(e)); }
static Val mkMulO(Val a, Val b, unsigned w, Val& ov){
  if(!a.t&&!b.t){ u128 p=(u128)a.c*b.c; ov=K(p>maskw(w)); return K((u64)p&maskw(w)); }
  if(!a.t) std::swap(a,b);
  if(!b.t){ if(b.c==0){ ov=K(0); return K(0);} if(isCL(a)){ Val o=liftLeaves(a,8,[&](u64 c){ return K(((u128)c*b.c)>maskw(w)); }); ov=o.t?mkTrunc(o,8,1):o; return mkMul(a,b,w); } u64 lim=maskw(w)/b.c; ov=mkUlt(K(lim),a,w); return mkMul(a,b,w); }
  if((u128)vhi(a)*vhi(b)<=maskw(w)){ ov=K(0); return mkMul(a,b,w); }
  u64 bc=concretize(b,w); return mkMulO(a,K(bc),w,ov);
}
static Val mkAddO(Val a, Val b, unsigned w, Val& ov){ // unsigned
  if(!a.t&&!b.t){ u128 p=(u128)a.c+b.c; ov=K(p>maskw(w)); return K((u64)p&maskw(w)); }
  Lin l; linAdd(l,a,-1); linAdd(l,b,-1); l.k+=(i128)1<<w; ov=l.bad? mkUlt(mkAdd(a,b,w),a,w) : mkLe0(l); return mkAdd(a,b,w); }
static bool symc(Val v){ return v.t!=nullptr; }

static void doReturn(const Val* rv, u32 n);
// executes a builtin; returns true if a result was written
static void callBuiltin(Frame* f, const Inst& I, const CallInfo& C){
  auto arg=[&](size_t i, u32 j=0)->Val{ Frame*q=S->fr.back(); Opd o=C.args[i].o; return o>=0? q->r[o+j] : q->f->consts[~o+j]; };
  auto cn=[&](size_t i, unsigned w=64)->u64{ return concretize(arg(i),w); };
  auto ret=[&](Val v){ if(I.dst>=0) S->top()->r[I.dst]=v; };
  auto put=[&](u32 j, Val v){ if(I.dst>=0) S->top()->r[I.dst+j]=v; }; (void)f;
  unsigned w=C.retw, aw=C.argw;
  switch(C.builtin){
    case BI_SYM: { u64 lo=cn(0),hi=cn(1); if(lo>hi) fatal("fpv_sym range"); if(lo==hi){ S->inputs.push_back({0,K(lo)}); ret(K(lo)); break; } u32 ix=S->vars.size(); Term*t=mkVar(ix,64,lo,hi); S->vars.push_back(t); if(S->model.use_count()>1) S->model=std::make_shared<Model>(*S->model); u64 span=hi-lo; u64 off=(ix*2654435761ull+7)%(span<1000?span+1:1000); S->model->push_back(lo+off); S->inputs.push_back({0,Val{0,t}}); ret(Val{0,t}); u64 nv=S->vars.size(); if(nv>ES->maxvars) ES->maxvars=nv; break; }
    case BI_CHOOSE: { u64 n=cn(0); if(n==0) throw PathEnd{PE_ASSUME,""}; 
        u64 k; if(S->haveChoice){ k=S->choice.c; S->haveChoice=false; } else { k=0; for(u64 j=n;j-->1;){ State*s2=new State(*S); s2->choice=K(j); s2->haveChoice=true; pending.push_back(s2); ES->forks++; } if(n>1){ checkTime(); maybeGive(); } }
        S->inputs.push_back({1,K(k)}); ret(K(k)); break; }
    case BI_ASSUME: { Val c=arg(0); if(!c.t){ if(!(c.c&1)) throw PathEnd{PE_ASSUME,""}; break; } Term*t=c.t; bool pol=true; while(t->k==B_NOT){pol=!pol;t=t->a.t;} auto it=S->known.find(t->id); if(it!=S->known.end()){ if(it->second!=pol) throw PathEnd{PE_ASSUME,""}; break; }
        if(!evalUnder(c,*S->model)){ Model m=*S->model; int r=solve(S->path,c,m); if(r==0) throw PathEnd{PE_ASSUME,""}; if(r<0) throw PathEnd{PE_UNKNOWN,"solver gave no answer"}; S->model=std::make_shared<Model>(m); } addCond(S,c); break; }
    case BI_ASSERT: { ES->asserts++; Val c=arg(0); u64 p=cn(1), n=cn(2); auto text=[&](){ std::string s; for(u64 i=0;i<n&&i<200;i++) s+=(char)loadAt(p+i,1).c; return s; };
        if(!c.t){ ES->assert_const++; if(!(c.c&1)){ violation("assert",text(),*S->model); throw PathEnd{PE_VIOL,"assert"}; } break; }
        Term*t=c.t; bool pol=true; while(t->k==B_NOT){pol=!pol;t=t->a.t;} auto it=S->known.find(t->id); if(it!=S->known.end()){ if(it->second!=pol){ violation("assert",text(),*S->model); throw PathEnd{PE_VIOL,"assert"}; } ES->assert_proved++; break; }
        checkTime(); Val nc=mkNot(c); Model m=*S->model; int r= evalUnder(nc,m)? 1 : solve(S->path,nc,m);
        if(r<0) throw PathEnd{PE_UNKNOWN,"solver gave no answer on an assertion"};
        if(r==1){ violation("assert",text(),m); Model m2=*S->model; if(!evalUnder(c,m2)){ int q=solve(S->path,c,m2); if(q!=1) throw PathEnd{PE_VIOL,"assert"}; S->model=std::make_shared<Model>(m2); } addCond(S,c); }
        else { ES->assert_proved++; S->known[t->id]=pol; }
        break; }
    case BI_OBSERVE: S->obs.push_back({cn(0),arg(1)}); break;
    case BI_REACH: { u64 b=cn(0); S->reach|=1ull<<b; ES->reach|=1ull<<b; break; }
    case BI_EXPECT: S->expectPanic=true; break;
    case BI_ITE: ret(mkIte(arg(0),arg(1),arg(2),64)); break;
    case BI_AND: ret(mkAndB(arg(0),arg(1))); break;
    case BI_OR: ret(mkOrB(arg(0),arg(1))); break;
    case BI_LE: ret(mkNot(mkUlt(arg(1),arg(0),64))); break;
    case BI_LT: ret(mkUlt(arg(0),arg(1),64)); break;
    case BI_EQ: ret(mkCmpEq(arg(0),arg(1),64)); break;
    case BI_SEED: S->rng=cn(0)*0x1000193+0x1234; break;
    case BI_PARAM: ret(K(g_param)); break;
    case BI_WORK: ret(K(g_work)); break;
    case BI_REPS: ret(K(1)); break;
    case BI_YIELD: ret(K(0)); break;
    case BI_CLOCK: { u64 p=cn(1); storeAt(p,8,K(1700000000+splitmix(S->rng)%100000)); storeAt(p+8,8,K(splitmix(S->rng)%1000000000)); ret(K(0)); break; }
    case BI_MALLOC: { u64 n=cn(0); ret(K(allocMem(n,0xAA))); break; }
    case BI_CALLOC: { u64 n=cn(0)*cn(1); g_work+=n/8; ret(K(allocMem(n,0))); break; }
    case BI_PMEMALIGN: { u64 p=cn(0), n=cn(2); u64 a=allocMem(n,0xAA); storeAt(p,8,K(a)); ret(K(a?0:12)); break; }
    case BI_REALLOC: { u64 p=cn(0), n=cn(1); if(!p){ ret(K(allocMem(n,0xAA))); break; } const Obj*o=S->mem.get(p>>32); if(!o||(u32)p!=0||o->kind!=1) memFault("realloc of invalid pointer",p,0); u64 os=o->size; u64 a=allocMem(n,0xAA); if(a){ g_work+=std::min(os,n)/8; memcopy(a,p,std::min(os,n)); S->mem.del(p>>32); } ret(K(a)); break; }
    case BI_FREE: { u64 p=cn(0); if(!p) break; if(S->par){ const Obj*q=S->mem.get(p>>32); if(q) parNote(p,q->size?q->size:1,true); } const Obj*o=S->mem.get(p>>32); if(!o||(u32)p!=0||o->kind!=1) memFault("free of invalid pointer",p,0); S->mem.del(p>>32); break; }
    case BI_BCMP: case BI_MEMCMP: { u64 a=cn(0), b=cn(1), n=cn(2); g_work+=n/8; if(n==0){ ret(K(0)); break; } rdObj(a,n); rdObj(b,n);
        const Obj*oa=rdObj(a,n), *ob=rdObj(b,n); if(oa->ov.empty()&&ob->ov.empty()){ int r=memcmp(oa->d+(u32)a,ob->d+(u32)b,n); ret(K((u64)(r<0?-1:r>0?1:0)&0xffffffff)); break; }
        if(C.builtin==BI_BCMP){ Val all=K(1); u64 i=0; while(i<n){ u64 st=std::min<u64>(8,n-i); if(st<8) st=1; Val x=loadAt(a+i,st), y=loadAt(b+i,st); all=mkAndB(all,mkCmpEq(x,y,st*8)); i+=st; } ret(mkIte(all,K(0),K(1),32)); break; }
        u64 r=0; for(u64 i=0;i<n;i++){ Val x=loadAt(a+i,1), y=loadAt(b+i,1); if(decide(mkCmpEq(x,y,8))) continue; r=decide(mkUlt(x,y,8))?0xffffffff:1; break; } ret(K(r)); break; }
    case BI_MEMCHR: case BI_MEMRCHR: { u64 a=cn(0), c=cn(1,32)&0xff, n=cn(2); u64 r=0; g_work+=n/8; if(C.builtin==BI_MEMCHR){ for(u64 i=0;i<n;i++) if(decide(mkCmpEq(loadAt(a+i,1),K(c),8))){ r=a+i; break; } } else for(u64 i=n;i-->0;) if(decide(mkCmpEq(loadAt(a+i,1),K(c),8))){ r=a+i; break; } ret(K(r)); break; }
    case BI_RMEMCHR: { u64 c=cn(0,8), a=cn(1), n=cn(2), i=0; for(;i<n;i++) if(decide(mkCmpEq(loadAt(a+i,1),K(c),8))) break; put(0,K(i<n)); put(1,K(i<n?i:0)); break; }
    case BI_STRLEN: ret(K(cstr(cn(0)).size())); break;
    case BI_ERRNO: ret(K((u64)errnoId<<32)); break;
    case BI_GETRANDOM: { u64 p=cn(0), n=cn(1); for(u64 i=0;i<n;i++) storeAt(p+i,1,K(splitmix(S->rng)&0xff)); ret(K(n)); break; }
    case BI_SYSCALL: { u64 nr=cn(0); if(nr==318){ u64 p=cn(1), n=cn(2); for(u64 i=0;i<n;i++) storeAt(p+i,1,K(splitmix(S->rng)&0xff)); ret(K(n)); break; } if(nr==202){ if(S->par&&((cn(2)&127)==0||(cn(2)&127)==9)){ setErrno(11); ret(K(~0ull)); break; } ret(K(0)); break; } setErrno(38); ret(K(~0ull)); break; }
    case BI_ABORT: violation("abort","abort called",*S->model); throw PathEnd{PE_VIOL,"abort"};
    case BI_OPEN: { std::string nm=cstr(cn(0)); u64 fl=cn(1,32); FS& fs=fsw(); if(nm=="/dev/full"){ VFd d; d.open=true; d.file=-2; d.rd=false; d.wr=true; fs.fds.push_back(d); ret(K(10+fs.fds.size()-1)); break; } auto it=fs.names.find(nm); int id; if(it==fs.names.end()){ if(!(fl&0x40)){ setErrno(2); ret(K(0xffffffff)); break; } id=fs.files.size(); fs.files.push_back({}); fs.names[nm]=id; } else { id=it->second; if((fl&0xC0)==0xC0){ setErrno(17); ret(K(0xffffffff)); break; } } if(fl&0x200) fs.files[id].bytes.clear(); VFd d; d.open=true; d.file=id; u64 acc=fl&3; d.rd=acc!=1; d.wr=acc!=0; d.app=fl&0x400; fs.fds.push_back(d); ret(K(10+fs.fds.size()-1)); break; }
    case BI_CLOSE: { u64 d=cn(0,32); FS& fs=fsw(); if(d>=10&&d-10<fs.fds.size()) fs.fds[d-10].open=false; ret(K(0)); break; }
    case BI_READ: { u64 d=cn(0,32), p=cn(1), n=cn(2); FS& fs=fsw(); if(d<10||d-10>=fs.fds.size()||!fs.fds[d-10].rd){ setErrno(9); ret(K(~0ull)); break; } VFd& F=fs.fds[d-10]; auto& by=fs.files[F.file].bytes; u64 av=F.pos<by.size()?by.size()-F.pos:0; u64 k=std::min(av,n); for(u64 i=0;i<k;i++) storeAt(p+i,1,by[F.pos+i]); F.pos+=k; ret(K(k)); break; }
    case BI_WRITE: case BI_WRITEV: { u64 d=cn(0,32); std::vector<std::pair<u64,u64>> v; if(C.builtin==BI_WRITE) v.push_back({cn(1),cn(2)}); else { u64 p=cn(1), n=cn(2,32); for(u64 i=0;i<n;i++) v.push_back({concretize(loadAt(p+16*i,8),64),concretize(loadAt(p+16*i+8,8),64)}); } u64 tot=0; 
        if(d<10){ for(auto&x:v) tot+=x.second; ret(K(tot)); break; }
        { FS& fs=fsw(); if(d-10>=fs.fds.size()||!fs.fds[d-10].wr){ setErrno(9); ret(K(~0ull)); break; } VFd& F=fs.fds[d-10]; if(F.file==-2){ setErrno(28); ret(K(~0ull)); break; } if(F.app) F.pos=fs.files[F.file].bytes.size(); }
        // a device of limited size takes as many bytes as fit; a write that finds no room at all fails. Decisions may fork: no references to the file system across them
        u64 pos=fsw().fds[d-10].pos, room=0; Val lim=fsw().limit; for(auto&x:v) room+=x.second;
        if(room&&decide(mkUlt(lim,K(pos+room),64))){ u64 lo=0, hi=room-1; while(lo<hi){ u64 m=(lo+hi+1)/2; if(decide(mkUlt(lim,K(pos+m),64))) hi=m-1; else lo=m; } room=lo; if(!room){ setErrno(27); ret(K(~0ull)); break; } }
        FS& fs=fsw(); VFd& F=fs.fds[d-10]; auto& by=fs.files[F.file].bytes;
        for(auto&x:v){ x.second=std::min(x.second,room-tot); for(u64 i=0;i<x.second;i++){ Val b=loadAt(x.first+i,1); if(F.pos<by.size()) by[F.pos]=b; else { while(by.size()<F.pos) by.push_back(K(0)); by.push_back(b); } F.pos++; } tot+=x.second; } ret(K(tot)); break; }
    case BI_HEAP: { u64 n=0; for(auto c:S->mem.ch) for(auto o:c->o) if(o&&o->kind==1) n+=o->size; ret(K(n)); break; }
    case BI_LIMIT: fsw().limit=arg(0); break;
    case BI_LSEEK: { u64 d=cn(0,32), o=cn(1), wh=cn(2,32); FS& fs=fsw(); if(d<10||d-10>=fs.fds.size()){ setErrno(9); ret(K(~0ull)); break; } VFd& F=fs.fds[d-10]; u64 sz=fs.files[F.file].bytes.size(); F.pos= wh==0?o: wh==1?F.pos+o: sz+o; ret(K(F.pos)); break; }
    case BI_STATFAIL: setErrno(38); ret(K(maskw(w))); break;
    case BI_UNLINK: { std::string nm=cstr(cn(0)); FS& fs=fsw(); if(fs.names.erase(nm)) ret(K(0)); else { setErrno(2); ret(K(0xffffffff)); } break; }
    case BI_PKC: { u64 p=cn(0); storeAt(p,4,K(S->nextKey++)); ret(K(0)); break; }
    case BI_PKD: case BI_PSS: case BI_RET0: ret(K(0)); break;
    case BI_GETENV: ret(K(0)); break;
    case L_MEMCPY: { u64 n=cn(2); g_work+=n/8; u64 d=cn(0), s=cn(1); if(n) memcopy(d,s,n); if(I.dst>=0) ret(K(d)); break; }
    case L_MEMSET: { u64 n=cn(2); g_work+=n/8; u64 d=cn(0); Val v=arg(1); if(!n) break; Obj*o=wrObj(d,n); if(!v.t){ clearOv(o,(u32)d,n); memset(o->d+(u32)d,(int)(v.c&0xff),n); } else for(u64 i=0;i<n;i++) storeN(o,(u32)d+i,1,v); if(I.dst>=0) ret(K(d)); break; }
    case L_UMIN: case L_UMAX: case L_SMIN: case L_SMAX: { u32 n=C.retn; for(u32 j=0;j<n;j++){ Val a=arg(0,j), b=arg(1,j); Val c=(C.builtin==L_UMIN||C.builtin==L_UMAX)?mkUlt(a,b,w):mkSlt(a,b,w); bool mn=C.builtin==L_UMIN||C.builtin==L_SMIN; put(j, mn?mkIte(c,a,b,w):mkIte(c,b,a,w)); } break; }
    case L_UCMP: case L_SCMP: { Val a=arg(0), b=arg(1); Val lt=C.builtin==L_UCMP?mkUlt(a,b,aw):mkSlt(a,b,aw); Val eq=mkCmpEq(a,b,aw); ret(mkIte(lt,K(maskw(w)),mkIte(eq,K(0),K(1),w),w)); break; }
    case L_USUBSAT: { for(u32 j=0;j<C.retn;j++){ Val a=arg(0,j), b=arg(1,j); Val c=mkUlt(a,b,w); if(!c.t) put(j,c.c?K(0):mkSub(a,b,w)); else { bool lt=decide(c); put(j,lt?K(0):mkSub(a,b,w)); } } break; }
    case L_UADDSAT: { Val a=arg(0), b=arg(1), ov; Val s=mkAddO(a,b,w,ov); ret(decide(ov)?K(maskw(w)):s); break; }
    case L_UADDO: case L_USUBO: case L_UMULO: { Val a=arg(0), b=arg(1), ov, s; if(C.builtin==L_UADDO) s=mkAddO(a,b,aw,ov); else if(C.builtin==L_USUBO){ ov=mkUlt(a,b,aw); s=mkSub(a,b,aw); } else s=mkMulO(a,b,aw,ov); put(0,s); put(1,ov); break; }
    case L_SADDO: case L_SSUBO: case L_SMULO: { Val a=arg(0), b=arg(1); i64 x=(i64)sx(concretize(a,aw),aw), y=(i64)sx(concretize(b,aw),aw); i128 r= C.builtin==L_SADDO?(i128)x+y: C.builtin==L_SSUBO?(i128)x-y:(i128)x*y; i128 mx=((i128)1<<(aw-1))-1, mn=-((i128)1<<(aw-1)); put(0,K((u64)r&maskw(aw))); put(1,K(r>mx||r<mn)); break; }
    case L_FSHL: case L_FSHR: { u64 s=cn(2,w)%w; Val a=arg(0), b=arg(1); if(s==0){ ret(C.builtin==L_FSHL?a:b); break; } if(C.builtin==L_FSHR) s=w-s; ret(mkOr(mkShl(a,K(s),w),mkLshr(b,K(w-s),w),w)); break; }
    case L_CTLZ: { u64 v=cn(0,w); ret(K(v?__builtin_clzll(v)-(64-w):w)); break; }
    case L_CTTZ: { u64 v=cn(0,w); ret(K(v?__builtin_ctzll(v):w)); break; }
    case L_CTPOP: ret(K(__builtin_popcountll(cn(0,w)))); break;
    case L_BSWAP: { Val v=arg(0); unsigned n=w/8; std::vector<std::pair<Val,unsigned>> ps; for(unsigned i=0;i<n;i++) ps.push_back({mkExtractByte(v,w,n-1-i),8}); ret(combine(ps)); break; }
    case L_BITREV: { u64 v=cn(0,w), r=0; for(unsigned i=0;i<w;i++) if(v>>i&1) r|=1ull<<(w-1-i); ret(K(r)); break; }
    case L_ABS: { u64 v=cn(0,w); i64 x=(i64)sx(v,w); ret(K((u64)(x<0?-x:x)&maskw(w))); break; }
    case L_TRAP: violation("abort","trap",*S->model); throw PathEnd{PE_VIOL,"trap"};
    case L_ISCONST: ret(K(0)); break;
    case L_TLS: { Val a=arg(0); if(S->par&&!a.t){ u32 id=a.c>>32; auto key=std::make_pair(S->par->cur,id); auto it=S->par->tls.find(key); if(it==S->par->tls.end()){ Obj*o=g_init->mem.get(id); if(!o) throw PathEnd{PE_UNSUP,"thread local"}; u32 n=S->mem.add(cloneObj(o)); it=S->par->tls.emplace(key,n).first; } ret(K(((u64)it->second<<32)|(u32)a.c)); break; } ret(a); break; }
    case L_EXPECT: ret(arg(0)); break;
    case L_FPTOUISAT: ret(mkFUn(F_TOUI,arg(0),aw,w)); break;
    case L_FPTOSISAT: ret(mkFUn(F_TOSI,arg(0),aw,w)); break;
    case L_FABS: ret(mkAnd(arg(0),K(maskw(aw)>>1),aw)); break;
    case L_FFLOOR: ret(mkFUn(F_FLOOR,arg(0),aw,aw)); break; case L_SQRT: ret(mkFUn(F_SQRT,arg(0),aw,aw)); break; case L_FCEIL: ret(mkFUn(F_CEIL,arg(0),aw,aw)); break; case L_FTRUNC: ret(mkFUn(F_RTZ,arg(0),aw,aw)); break; case L_FROUND: ret(mkFUn(F_RNA,arg(0),aw,aw)); break;
    case L_FMIN: case L_FMAX: { Val x=arg(0),y=arg(1); Val lt=mkFCmp(C.builtin==L_FMIN?4:2,x,y,aw), yn=mkFCmp(14,y,y,aw); ret(mkIte(mkOrB(lt,yn),x,y,aw)); break; }
    case L_FMA: ret(mkFBin(F_ADD,mkFBin(F_MUL,arg(0),arg(1),aw),arg(2),aw)); break;
    default: throw PathEnd{PE_UNSUP,"builtin "+C.name};
  }
}
// ------------------------------------------------------------------ interpreter
static void ensure(Func*f){ if(!f->decoded){ M.decode(f); } }
static void enter(Func*g, const std::vector<Val>& args, i32 dst, u32 dstn){
  ensure(g); SH->fn[g->idx<MAXFN?g->idx:MAXFN-1].store(1,std::memory_order_relaxed);
  Frame*n=newFrame(g); n->dst=dst; n->dstn=dstn; size_t k=0; for(auto&p:g->params) for(u32 j=0;j<p.n;j++){ if(k>=args.size()) fatal("arg count calling %s",g->name.c_str()); n->r[p.o+j]=args[k++]; }
  S->fr.push_back(n); if(S->fr.size()>S->depthCap){ violation("stack",S->depthCap==6000?"call depth above 6000":"the depth of calls grows with the size of the graph",*S->model); throw PathEnd{PE_VIOL,"stack"}; }
}
static inline Val cmp(u8 p, Val a, Val b, unsigned w){
  if(!a.t&&!b.t){ switch(p){ case P_EQ:return K(a.c==b.c); case P_NE:return K(a.c!=b.c); case P_UGT:return K(a.c>b.c); case P_UGE:return K(a.c>=b.c); case P_ULT:return K(a.c<b.c); case P_ULE:return K(a.c<=b.c); default: { i64 x=(i64)sx(a.c,w), y=(i64)sx(b.c,w); switch(p){ case P_SGT:return K(x>y); case P_SGE:return K(x>=y); case P_SLT:return K(x<y); default:return K(x<=y);} } } }
  switch(p){ case P_EQ:return mkCmpEq(a,b,w); case P_NE:return mkNot(mkCmpEq(a,b,w)); case P_UGT:return mkUlt(b,a,w); case P_UGE:return mkNot(mkUlt(a,b,w)); case P_ULT:return mkUlt(a,b,w); case P_ULE:return mkNot(mkUlt(b,a,w)); case P_SGT:return mkSlt(b,a,w); case P_SGE:return mkNot(mkSlt(a,b,w)); case P_SLT:return mkSlt(a,b,w); default:return mkNot(mkSlt(b,a,w)); }
}
static Val binop(u8 op, Val a, Val b, unsigned w){
  switch(op){ case I_ADD:return mkAdd(a,b,w); case I_SUB:return mkSub(a,b,w); case I_MUL:return mkMul(a,b,w); case I_AND:return mkAnd(a,b,w); case I_OR:return mkOr(a,b,w); case I_XOR:return mkXor(a,b,w); case I_SHL:return mkShl(a,b,w); case I_LSHR:return mkLshr(a,b,w); case I_ASHR:return mkAshr(a,b,w);
    case I_UDIV: case I_UREM: if(b.t){ b=K(concretize(b,w)); } if(b.c==0){ violation("abort","division by zero",*S->model); throw PathEnd{PE_VIOL,"div0"}; } return op==I_UDIV?mkUdiv(a,b,w):mkUrem(a,b,w);
    case I_SDIV: case I_SREM: { i64 x=(i64)sx(concretize(a,w),w), y=(i64)sx(concretize(b,w),w); if(y==0) throw PathEnd{PE_VIOL,"div0"}; if(y==-1) return K(op==I_SDIV?(u64)(-x)&maskw(w):0); return K((u64)(op==I_SDIV?x/y:x%y)&maskw(w)); } }
  fatal("binop"); }
static u128 c128(Val lo, Val hi){ return (u128)concretize(lo,64)|((u128)concretize(hi,64)<<64); }
static inline void takeEdge(Frame*f, const Edge& e){
  if(e.copies.size()==1){ const PCopy&c=e.copies[0]; if(c.src>=0) memmove((void*)&f->r[c.dst],&f->r[c.src],c.n*sizeof(Val)); else memcpy((void*)&f->r[c.dst],&f->f->consts[~c.src],c.n*sizeof(Val)); }
  else if(!e.copies.empty()){ static thread_local std::vector<Val> tmp; tmp.clear(); for(auto&c:e.copies){ const Val*s=c.src>=0?&f->r[c.src]:&f->f->consts[~c.src]; tmp.insert(tmp.end(),s,s+c.n); } size_t k=0; for(auto&c:e.copies){ memcpy((void*)&f->r[c.dst],&tmp[k],c.n*sizeof(Val)); k+=c.n; } }
  f->pc=e.target;
}
// a panic inside fpv_try drops the frames up to that call (compiled with panic=abort there are no clean-ups to run)
static void panicEvent(Func*g){
  for(size_t i=S->fr.size();i-->1;) if(S->fr[i]->tryDst>=0){ i32 d=S->fr[i]->tryDst;
    while(S->fr.size()>i){ Frame*x=S->fr.back(); if(x->oldCap) S->depthCap=x->oldCap; for(u32 id:x->allocas) S->mem.del(id); dropFrame(x); S->fr.pop_back(); }
    Frame*f=S->top(); f->r[d]=K(1); f->pc++; return; }
  if(S->expectPanic) throw PathEnd{PE_OK,"expected panic"};
  violation("panic","panic in "+g->name,*S->model); throw PathEnd{PE_VIOL,"panic"};
}
// ---------------------------------------------------------------- threads
static int g_preempt=2;
static void parSwitch(State*s){ Par*P=s->par; std::swap(s->fr,P->other); P->cur^=1; P->run=0; }
// before an access of the running thread; true: another thread runs now
static bool parPoint(u64 a, u64 n){
  Par*P=S->par; if(!P->explore||(a>>32)>=P->firstPriv||P->done[P->cur^1]||!n) return false;
  bool hit=false; for(u64 g=a>>3;g<=(a+n-1)>>3&&!hit;g++) hit=P->plan->conf.count(g)>0; if(!hit) return false;
  if(P->skip[P->cur]){ P->skip[P->cur]=false; P->run++; return false; }
  checkTime();
  if(P->run>200){ P->skip[P->cur]=true; parSwitch(S); return true; } // spinning
  if(P->preempt<g_preempt){ State*n2=new State(*S); n2->par->preempt++; n2->par->skip[P->cur]=true; parSwitch(n2); n2->forks++; pending.push_back(n2); S->forks++; ES->forks++; maybeGive(); }
  P->run++; return false;
}
// the running thread cannot go on (futex wait, yield): let the other one run
static bool parBlock(bool wait){ Par*P=S->par; if(P->done[P->cur^1]){ if(wait){ violation("steps","deadlock: a thread waits for ever",*S->model); throw PathEnd{PE_VIOL,"deadlock"}; } return false; }
  if(wait){ if(P->blocked[P->cur^1]&&P->blocked[P->cur]){ violation("steps","deadlock: both threads wait",*S->model); throw PathEnd{PE_VIOL,"deadlock"}; } P->blocked[P->cur]=true; }
  parSwitch(S); return true; }
static void parStart(Frame*f, const Inst& I, const CallInfo& C){ (void)I;
  auto arg=[&](size_t i)->u64{ Opd o=C.args[i].o; Val v= o>=0? f->r[o] : f->f->consts[~o]; if(v.t) throw PathEnd{PE_UNSUP,"fpv_par"}; return v.c; };
  if(S->par) throw PathEnd{PE_UNSUP,"nested fpv_par"};
  u64 fn[2]={arg(0),arg(2)}, da[2]={arg(1),arg(3)}; Par*P=new Par; 
  if(!S->plan) P->snap=std::make_shared<State>(*S); else { S->threads=true; P->explore=true; P->plan=S->plan; S->plan=nullptr; P->snap=std::make_shared<State>(*S); }
  P->mainFr=S->fr; S->fr.clear(); P->firstPriv=S->mem.next;
  auto start=[&](int t){ u64 a=fn[t]; if(a<FNBASE||((a-FNBASE)>>4)>=M.funcs.size()) throw PathEnd{PE_UNSUP,"fpv_par function"}; enter(M.funcs[(a-FNBASE)>>4].get(),{K(da[t])},-1,0); };
  start(1); P->other=S->fr; S->fr.clear(); start(0); S->par=P;
  if(P->explore){ State*n=new State(*S); parSwitch(n); n->forks++; pending.push_back(n); ES->forks++; S->forks++; maybeGive(); }
}
// the running thread has returned from its outermost function
static void parThreadEnd(){
  Par*P=S->par; P->done[P->cur]=true; P->blocked[P->cur^1]=false; 
  if(!P->done[P->cur^1]){ parSwitch(S); return; }
  auto C=std::make_shared<ParPlan>(); bool more=false; if(P->plan) C->conf=P->plan->conf; C->round=(P->plan?P->plan->round:0)+1;
  for(auto&e:P->acc){ u8 b=e.second; if(((b&2)&&(b&12))||((b&8)&&(b&3))) more|=C->conf.insert(e.first).second; }
  if(more){ ES->conflicts++; if(C->round<=3){ State*n=new State(*P->snap); pdrop(n->path); n->path=S->path; if(n->path) n->path->rc++; n->known=S->known; n->model=S->model; n->insts=S->insts; n->forks=S->forks+1; n->plan=C; pending.push_back(n); ES->forks++; } }
  S->fr=P->mainFr; P->mainFr.clear(); S->par=nullptr; delete P; S->top()->pc++;
}
static void pathDone(){ }
static void step(Frame*& f);
struct CntGuard { u64& c; ~CntGuard(){ ES->insts+=c&0x3fff; } };
static void runState(){
  Frame*f=S->top(); u64 cnt=0; g_work=S->work; CntGuard cg{cnt};
  while(true){
    ++g_work;
    if((++cnt&0x3fff)==0){ S->insts+=0x4000; ES->insts+=0x4000; if(S->insts>g_maxinst){ violation("steps","instruction limit reached (possible non-termination)",*S->model); throw PathEnd{PE_LIMIT,"instruction limit"}; } checkTime(); maybeGive(); }
    // frames may have been shared by a fork
    if(f->rc>1) f=S->top();
    const Inst& I=f->f->code[f->pc];
    auto V=[&](Opd o, u32 j=0)->const Val&{ return o>=0? f->r[o+j] : f->f->consts[~o+j]; };
    switch(I.op){
      case I_NOP: break;
      case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
        if(I.w>64){ 
          if((I.op==I_OR||I.op==I_AND||I.op==I_XOR)){ Val l=binop(I.op,V(I.a),V(I.b),64), h=binop(I.op,V(I.a,1),V(I.b,1),I.w-64); f->r[I.dst]=l; f->r[I.dst+1]=h; break; }
          if((I.op==I_LSHR||I.op==I_SHL)&&!V(I.b).t&&V(I.b).c==64&&I.w==128){ Val l=V(I.a), h=V(I.a,1); if(I.op==I_LSHR){ f->r[I.dst]=h; f->r[I.dst+1]=K(0); } else { f->r[I.dst]=K(0); f->r[I.dst+1]=l; } break; }
          if(I.op==I_MUL&&I.w==128){ // widening product that fits
            Val al=V(I.a),ah=V(I.a,1),bl=V(I.b),bh=V(I.b,1); if(!ah.t&&!bh.t&&ah.c==0&&bh.c==0&&(al.t||bl.t)&&(u128)vhi(al)*vhi(bl)<=~0ull){ Val p=mkMul(al,bl,64); f->r[I.dst]=p; f->r[I.dst+1]=K(0); break; } }
          u128 a=c128(V(I.a),V(I.a,1)), b=c128(V(I.b),V(I.b,1)); f=S->top(); u128 r=0; switch(I.op){ case I_ADD:r=a+b;break; case I_SUB:r=a-b;break; case I_MUL:r=a*b;break; case I_UDIV: r=b?a/b:0;break; case I_UREM:r=b?a%b:0;break; case I_SHL:r=b>=I.w?0:a<<(unsigned)b;break; case I_LSHR:r=b>=I.w?0:a>>(unsigned)b;break; case I_ASHR: if(I.w==128) r=(u128)((i128)a>>(b>=128?127:(unsigned)b)); else throw PathEnd{PE_UNSUP,"i128 ashr"}; break; default: throw PathEnd{PE_UNSUP,"i128 op"}; }
          f->r[I.dst]=K((u64)r); f->r[I.dst+1]=K((u64)(r>>64)&maskw(I.w-64)); break; }
        if(I.n==1){ Val a=V(I.a), b=V(I.b); Val r=binop(I.op,a,b,I.w); if(f->rc>1) f=S->top(); f->r[I.dst]=r; }
        else for(u32 j=0;j<I.n;j++){ Val r=binop(I.op,V(I.a,j),V(I.b,j),I.w); f->r[I.dst+j]=r; }
        break;
      case I_ICMP:
        if(I.w>64){ Val al=V(I.a),ah=V(I.a,1),bl=V(I.b),bh=V(I.b,1); Val r; if(I.sub==P_EQ||I.sub==P_NE){ r=mkAndB(mkCmpEq(al,bl,64),mkCmpEq(ah,bh,I.w-64)); if(I.sub==P_NE) r=mkNot(r); } else { Val he=mkCmpEq(ah,bh,I.w-64); switch(I.sub){ case P_ULT: r=mkOrB(mkUlt(ah,bh,I.w-64),mkAndB(he,mkUlt(al,bl,64))); break; case P_UGT: r=mkOrB(mkUlt(bh,ah,I.w-64),mkAndB(he,mkUlt(bl,al,64))); break; case P_UGE: r=mkNot(mkOrB(mkUlt(ah,bh,I.w-64),mkAndB(he,mkUlt(al,bl,64)))); break; case P_ULE: r=mkNot(mkOrB(mkUlt(bh,ah,I.w-64),mkAndB(he,mkUlt(bl,al,64)))); break; default: throw PathEnd{PE_UNSUP,"i128 signed compare"}; } } f->r[I.dst]=r; break; }
        for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=cmp(I.sub,V(I.a,j),V(I.b,j),I.w);
        break;
      case I_SELECT: {
        if(I.sub){ for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=mkIte(V(I.a,j),V(I.b,j),V(I.c,j),I.w); break; }
        Val c=V(I.a);
        if(!c.t){ for(u32 j=0;j<I.n;j++) f->r[I.dst+j]= (c.c&1)? V(I.b,j):V(I.c,j); }
        else if(I.imm){ bool same=true; for(u32 j=0;j<I.n;j++){ Val x=V(I.b,j), y=V(I.c,j); if(x.t!=y.t||x.c!=y.c) same=false; } bool d= same? true : decide(c); if(f->rc>1) f=S->top(); for(u32 j=0;j<I.n;j++){ Val x=d?V(I.b,j):V(I.c,j); f->r[I.dst+j]=x; } }
        else for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=mkIte(c,V(I.b,j),V(I.c,j),I.w);
        break; }
      case I_COPY: if(I.n==1) f->r[I.dst]=V(I.a); else { static std::vector<Val> t; t.clear(); for(u32 j=0;j<I.n;j++) t.push_back(V(I.a,j)); for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=t[j]; } break;
      case I_INSERT: { for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=V(I.a,j); for(u32 j=0;j<I.w;j++) f->r[I.dst+I.imm+j]=V(I.b,j); break; }
      case I_ZEXT: if(I.w2>64){ if(I.w>64||I.n>2) throw PathEnd{PE_UNSUP,"zext i128"}; Val a=V(I.a); f->r[I.dst]=mkZext(a,I.w,64); f->r[I.dst+1]=K(0); break; } for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=mkZext(V(I.a,j),I.w,I.w2); break;
      case I_SEXT: if(I.w2>64){ u64 v=sx(concretize(V(I.a),I.w),I.w); f=S->top(); f->r[I.dst]=K(v); f->r[I.dst+1]=K((i64)v<0?maskw(I.w2-64):0); break; } for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=mkSext(V(I.a,j),I.w,I.w2); break;
      case I_TRUNC: if(I.w>64){ if(I.w2>64){ f->r[I.dst]=V(I.a); u64 h=concretize(V(I.a,1),64); f=S->top(); f->r[I.dst+1]=K(h&maskw(I.w2-64)); break; } f->r[I.dst]=mkTrunc(V(I.a),64,I.w2); break; } for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=mkTrunc(V(I.a,j),I.w,I.w2); break;
      case I_BITCAST: { u32 na=I.imm, nb=I.n; if(na==nb){ for(u32 j=0;j<nb;j++) f->r[I.dst+j]=V(I.a,j); break; }
        std::vector<Val> src; for(u32 j=0;j<na;j++) src.push_back(V(I.a,j)); std::vector<Val> out;
        if(na>nb){ u32 k=na/nb; for(u32 j=0;j<nb;j++){ bool sym=false; for(u32 q=0;q<k;q++) sym|=symc(src[j*k+q]); if(!sym){ u64 v=0; for(u32 q=0;q<k;q++) v|=src[j*k+q].c<<(q*I.w); out.push_back(K(v)); } else if(I.w==1){ u64 v=0; for(u32 q=0;q<k;q++){ bool b=decide(src[j*k+q]); v|=(u64)b<<q; } out.push_back(K(v)); } else { std::vector<std::pair<Val,unsigned>> ps; for(u32 q=0;q<k;q++) ps.push_back({src[j*k+q],I.w}); out.push_back(combine(ps)); } } }
        else { u32 k=nb/na; for(u32 j=0;j<na;j++) for(u32 q=0;q<k;q++) out.push_back(mkTrunc(mkLshr(src[j],K(q*I.w2),I.w),I.w,I.w2)); }
        if(f->rc>1) f=S->top(); for(u32 j=0;j<nb;j++) f->r[I.dst+j]=out[j]; break; }
      case I_LOAD: { Val pa=V(I.a); u64 a; if(pa.t){ if(I.x<0&&I.w%8==0&&I.w<=64){ Val r; if(tableLoad(pa,I.w/8,r)){ f->r[I.dst]=r; break; } } a=concretize(pa,64); f=S->top(); } else a=pa.c;
        if(S->par){ bool sw=parPoint(a,8); f=S->top(); if(sw) continue; }
        if(I.x<0){ unsigned n=(I.w+7)/8; u32 id=a>>32; const Obj*o=S->mem.get(id); if(!o||(u64)(u32)a+n>o->size) rdObj(a,n); Val v; if(o->ov.empty()){ u64 x=0; memcpy(&x,o->d+(u32)a,n); v=K(I.w<64?x&maskw(I.w):x); } else { v=loadN(o,(u32)a,n); if(n*8!=I.w) v=mkTrunc(v,n*8,I.w); } f->r[I.dst]=v; }
        else if(I.sub==7){ Val v=loadBits(a,I.n); for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=mkTrunc(mkLshr(v,K(j),I.n),I.n,1); }
        else { auto&ps=f->f->parts[I.x]; for(size_t j=0;j<ps.size();j++) f->r[I.dst+j]=loadBits(a+ps[j].off,ps[j].bits); }
        break; }
      case I_STORE: { Val pa=V(I.a); u64 a; if(pa.t){ a=concretize(pa,64); f=S->top(); } else a=pa.c;
        if(S->par){ bool sw=parPoint(a,8); f=S->top(); if(sw) continue; }
        if(I.x<0) storeBits(a,I.w,V(I.b)); else if(I.sub==7){ u64 v=0; for(u32 j=0;j<I.n;j++){ Val x=V(I.b,j); bool b; if(x.t){ b=decide(x); f=S->top(); } else b=x.c&1; v|=(u64)b<<j; } storeBits(a,I.n,K(v)); } else { auto&ps=f->f->parts[I.x]; for(size_t j=0;j<ps.size();j++) storeBits(a+ps[j].off,ps[j].bits,V(I.b,j)); }
        break; }
      case I_GEP: { Val p=V(I.a); p=mkAdd(p,K(I.imm),64); for(auto&g:f->f->geps[I.x]){ Val ix=V(g.o); if(g.w<64) ix=mkSext(ix,g.w,64); if(!ix.t&&!p.t) p.c+=ix.c*g.scale; else if(ix.t&&!p.t&&!isCL(ix)&&!isConstTable(p.c)){ u64 c=concretize(ix,64); f=S->top(); p.c+=c*g.scale; } else p=mkAdd(p,mkMul(ix,K(g.scale),64),64); } f->r[I.dst]=p; break; }
      case I_ALLOCA: { u32 id=S->mem.add(newObj(I.imm,2,0xAA)); f->allocas.push_back(id); f->r[I.dst]=K((u64)id<<32); break; }
      case I_BR: takeEdge(f,f->f->edges[(u32)I.imm]); continue;
      case I_CBR: { Val c=V(I.a); bool b; if(c.t){ b=decide(c); if(f->rc>1) f=S->top(); } else b=c.c&1; takeEdge(f,f->f->edges[b?(u32)I.imm:(u32)(I.imm>>32)]); continue; }
      case I_SWITCH: { Val v=V(I.a); const SwitchInfo& sw=f->f->switches[I.x]; u32 e=sw.def; if(!v.t){ for(auto&c:sw.cases) if(c.first==v.c){ e=c.second; break; } }
        else { for(auto&c:sw.cases) if(decide(mkCmpEq(v,K(c.first),I.w))){ e=c.second; break; } if(f->rc>1) f=S->top(); }
        takeEdge(f,f->f->edges[e]); continue; }
      case I_RET: { Val tmp[8]; std::vector<Val> big; const Val* rv=tmp; u32 n=I.n; if(n<=8) for(u32 j=0;j<n;j++) tmp[j]=V(I.a,j); else { for(u32 j=0;j<n;j++) big.push_back(V(I.a,j)); rv=big.data(); }
        for(u32 id:f->allocas) S->mem.del(id); i32 dst=f->dst, td=f->tryDst; if(f->oldCap) S->depthCap=f->oldCap; dropFrame(f); S->fr.pop_back(); if(S->fr.empty()){ if(!S->par) throw PathEnd{PE_OK,""}; parThreadEnd(); f=S->top(); continue; }
        f=S->top(); if(dst>=0) for(u32 j=0;j<n;j++) f->r[dst+j]=rv[j]; if(td>=0) f->r[td]=K(0); f->pc++; continue; }
      case I_CALL: { const CallInfo& C=f->f->calls[I.x]; 
        if(C.builtin==BI_TRY){ u64 a=concretize(V(C.args[0].o),64); f=S->top(); if(a<FNBASE||((a-FNBASE)>>4)>=M.funcs.size()) memFault("call of invalid function pointer",a,0); std::vector<Val> args{V(C.args[1].o)}; enter(M.funcs[(a-FNBASE)>>4].get(),args,-1,0); S->top()->tryDst=I.dst; f=S->top(); continue; }
        if(C.builtin==BI_SHALLOW){ u64 a=concretize(V(C.args[0].o),64), n=concretize(V(C.args[2].o),64); f=S->top(); if(a<FNBASE||((a-FNBASE)>>4)>=M.funcs.size()) memFault("call of invalid function pointer",a,0); std::vector<Val> args{V(C.args[1].o)}; u32 old=S->depthCap; S->depthCap=std::min<u64>(old,S->fr.size()+n); enter(M.funcs[(a-FNBASE)>>4].get(),args,-1,0); S->top()->oldCap=old; f=S->top(); continue; }
        if(C.builtin==BI_PAR){ parStart(f,I,C); f=S->top(); continue; }
        if(S->par&&C.builtin>=0){ auto av=[&](size_t i)->u64{ Opd o=C.args[i].o; Val v=o>=0?f->r[o]:f->f->consts[~o]; return v.t?0:v.c; };
          if(C.builtin==BI_YIELD&&!S->par->skip[S->par->cur]){ S->par->skip[S->par->cur]=true; if(parBlock(false)){ f=S->top(); continue; } }
          if(C.builtin==BI_YIELD) S->par->skip[S->par->cur]=false;
          if(C.builtin==BI_SYSCALL&&av(0)==202){ u64 op=av(2)&127; if(op==0||op==9){ Val cur=loadAt(av(1),4); if(!cur.t&&cur.c==(av(3)&0xffffffff)&&parBlock(true)){ f=S->top(); continue; } S->par->blocked[S->par->cur]=false; } else S->par->blocked[S->par->cur^1]=false; }
          if(C.builtin==L_MEMCPY){ bool sw=parPoint(av(0),av(2))||parPoint(av(1),av(2)); f=S->top(); if(sw) continue; }
          if(C.builtin==L_MEMSET){ bool sw=parPoint(av(0),av(2)); f=S->top(); if(sw) continue; } }
        if(C.builtin>=0){ callBuiltin(f,I,C); if(f->rc>1){ /* forked inside: results were written into the shared frame before? */ } f=S->top(); break; }
        Func*g=C.f; if(C.indirect){ u64 a=concretize(V(C.fp),64); f=S->top(); if(a<FNBASE||((a-FNBASE)>>4)>=M.funcs.size()) memFault("call of invalid function pointer",a,0); g=M.funcs[(a-FNBASE)>>4].get(); int bi=builtinId(g->name); if(bi>=0){ CallInfo C2=C; C2.builtin=bi; C2.name=g->name; callBuiltin(f,I,C2); f=S->top(); break; } }
        if(!g) throw PathEnd{PE_UNSUP,"call "+C.name};
        if(g->isPanic){ panicEvent(g); f=S->top(); continue; }
        if(g->decl) throw PathEnd{PE_UNSUP,"external "+g->name};
        std::vector<Val> args; for(auto&a:C.args) for(u32 j=0;j<a.n;j++) args.push_back(V(a.o,j)); enter(g,args,I.dst,C.retn); f=S->top(); continue; }
      case I_SHUFFLE: { auto&m=f->f->shuf[I.x]; std::vector<Val> t; for(u32 q:m) t.push_back(q<I.w?V(I.a,q):V(I.b,q-I.w)); for(size_t j=0;j<t.size();j++) f->r[I.dst+j]=t[j]; break; }
      case I_INSELT: { u64 ix=concretize(V(I.c),64); f=S->top(); for(u32 j=0;j<I.n;j++) f->r[I.dst+j]=V(I.a,j); f->r[I.dst+ix]=V(I.b); break; }
      case I_EXTELT: { u64 ix=concretize(V(I.b),I.w2); f=S->top(); f->r[I.dst]=V(I.a,ix); break; }
      case I_RMW: { u64 a=concretize(V(I.a),64); f=S->top(); if(S->par){ bool sw=parPoint(a,8); f=S->top(); if(sw) continue; } Val o=loadBits(a,I.w), b=V(I.b), r; switch(I.sub){ case 0:r=b;break; case 1:r=mkAdd(o,b,I.w);break; case 2:r=mkSub(o,b,I.w);break; case 3:r=mkAnd(o,b,I.w);break; case 4:r=mkOr(o,b,I.w);break; case 5:r=mkXor(o,b,I.w);break; case 6:r=mkIte(mkUlt(o,b,I.w),b,o,I.w);break; default:r=mkIte(mkUlt(o,b,I.w),o,b,I.w);break; } storeBits(a,I.w,r); f->r[I.dst]=o; break; }
      case I_CMPXCHG: { u64 a=concretize(V(I.a),64); f=S->top(); if(S->par){ bool sw=parPoint(a,8); f=S->top(); if(sw) continue; } Val o=loadBits(a,I.w); bool eq=decide(mkCmpEq(o,V(I.b),I.w)); f=S->top(); if(eq) storeBits(a,I.w,V(I.c)); f->r[I.dst]=o; f->r[I.dst+1]=K(eq); break; }
      case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: f->r[I.dst]=mkFBin(I.op==I_FADD?F_ADD:I.op==I_FSUB?F_SUB:I.op==I_FMUL?F_MUL:F_DIV,V(I.a),V(I.b),I.sub?64:32); break;
      case I_FNEG: f->r[I.dst]=mkXor(V(I.a),K(I.sub? 1ull<<63 : 0x80000000ull),I.sub?64:32); break;
      case I_FCMP: f->r[I.dst]=mkFCmp(I.sub,V(I.a),V(I.b),I.imm?64:32); break;
      case I_UITOFP: case I_SITOFP: if(I.w>64) throw PathEnd{PE_UNSUP,"int to fp"}; f->r[I.dst]=mkFUn(I.op==I_UITOFP?F_UITOFP:F_SITOFP,V(I.a),I.w,(I.sub&2)?64:32); break;
      case I_FPTOUI: case I_FPTOSI: f->r[I.dst]=mkFUn(I.op==I_FPTOUI?F_TOUI:F_TOSI,V(I.a),(I.sub&1)?64:32,I.w2); break;
      case I_FPEXT: f->r[I.dst]=mkFUn(F_EXT,V(I.a),32,64); break;
      case I_FPTRUNC: f->r[I.dst]=mkFUn(F_TRUNC,V(I.a),64,32); break;
      case I_UNREACH: violation("memory","unreachable code executed",*S->model); throw PathEnd{PE_VIOL,"unreachable"};
      case I_UNSUP: throw PathEnd{PE_UNSUP,f->f->msgs[I.x]};
      default: fatal("op %d",I.op);
    }
    f->pc++;
  }
}
// ------------------------------------------------------------------ exploration
static std::vector<pid_t> kids;
static void reap(bool block){
  for(size_t i=0;i<kids.size();){ int st; pid_t r=waitpid(kids[i],&st,block?0:WNOHANG); if(r==kids[i]||(r<0&&errno==ECHILD)){ if(r>0&&!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ ES->crashed++; SH->tokens++; if(!ES->msg[0]) snprintf(ES->msg,399,"worker ended with status %x",st); } kids.erase(kids.begin()+i); } else i++; }
}
[[noreturn]] static void workerLoop();
static double lastGive=0;
static void maybeGive(){
  if(pending.empty()||SH->tokens.load(std::memory_order_relaxed)<=0) return;
  int t=SH->tokens.load(); while(t>0&&!SH->tokens.compare_exchange_weak(t,t-1)){} if(t<=0) return;
  reap(false);
  pid_t p=fork();
  if(p<0){ SH->tokens++; return; }
  if(p==0){ kids.clear(); State*first=pending.front(); pending.clear(); // siblings stay with the parent (leaked here)
    S=nullptr; pending.push_back(first); SI.c=nullptr; SI.stack.clear(); SB.c=nullptr; SB.stack.clear(); ES->procs++; workerLoop(); }
  kids.push_back(p); State*g=pending.front(); pending.erase(pending.begin()); delete g;
}
static void finishPath(const PathEnd& e){
  switch(e.kind){
    case PE_OK: { u64 n=ES->ok++; if(!e.msg.empty()) ES->expected_panic++; u64 d=S->forks; if(d>ES->maxdepth) ES->maxdepth=d;
      bool take=n<g_samples/2 || ((n&(n-1))==0) || (n%997==0&&ES->samples<4*g_samples); if(take&&ES->samples<8*g_samples){ ES->samples++; emit("S|"+std::to_string(curEntry)+"|"+(e.msg.empty()?"ok":"panic")+"||"+inputsStr(*S->model)+"|"+obsStr(*S->model)+"|"); } break; }
    case PE_ASSUME: ES->assumed++; break;
    case PE_VIOL: break;
    case PE_LIMIT: ES->limits++; break;
    case PE_UNSUP: if(!ES->unsupported++){ snprintf(ES->msg,399,"unsupported: %s in %.150s",e.msg.c_str(),S->fr.empty()?"":S->fr.back()->f->name.c_str()); } break;
    case PE_UNKNOWN: ES->limits++; snprintf(ES->msg,399,"%s",e.msg.c_str()); break;
    case PE_TIMEOUT: ES->timeouts++; break;
    case PE_STOP: break;
  }
}
[[noreturn]] static void workerLoop(){
  while(!pending.empty()){
    S=pending.back(); pending.pop_back();
    try { if(now()>g_deadline) throw PathEnd{PE_TIMEOUT,""}; if(ES->stop.load()) throw PathEnd{PE_STOP,""}; runState(); } catch(PathEnd& e){ ES->insts+=0; finishPath(e); }
    delete S; S=nullptr;
    maybeGive();
  }
  ES->t1=now(); SH->tokens++; rusage ru; getrusage(RUSAGE_SELF,&ru); if((u64)ru.ru_maxrss>SH->maxrss) SH->maxrss=ru.ru_maxrss;
  reap(true); _exit(0);
}
static State* initState(){
  State*s=new State; S=s;
  s->mem.add(newObj(4,3,0)); errnoId=s->mem.next-1;
  for(auto&g:M.globals){ g->id=s->mem.next; s->mem.add(newObj(g->ty->size,3,0)); g->addr=(u64)g->id<<32; if(g->ext) g->addr=0; }
  M.symAddr=[](const std::string& n0)->u64{ std::string n=n0; auto al=M.aliases.find(n); if(al!=M.aliases.end()) n=al->second; auto f=M.fmap.find(n); if(f!=M.fmap.end()){ if(f->second->weak && builtinId(n)<0) return 0; if(f->second->weak&&(n=="statx"||n=="gettid"||n=="__cxa_thread_atexit_impl")) return 0; return FNBASE+16ull*f->second->idx; } auto g=M.gmap.find(n); if(g!=M.gmap.end()) return g->second->addr; fatal("symbol %s",n.c_str()); };
  for(auto&g:M.globals){ if(g->ext) continue; Obj*o=s->mem.getw(g->id); Lex L(g->init); std::vector<u64> v; M.constant(L,g->ty,v); std::vector<MemPart> ps; Module::flat(g->ty,0,ps); if(v.size()!=ps.size()) fatal("global init %s: %zu vs %zu",g->name.c_str(),v.size(),ps.size()); for(size_t i=0;i<ps.size();i++) memcpy(o->d+ps[i].off,&v[i],(ps[i].bits+7)/8); if(g->isConst) o->kind=4; }
  return s;
}
int main(int argc, char**argv){
  const char* prog=nullptr; std::vector<std::string> entries; std::string out="/dev/stdout"; double tlimit=600; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ if(i+1>=argc) fatal("arg"); return std::string(argv[++i]); };
    if(a=="--entry") entries.push_back(nx()); else if(a=="--out") out=nx(); else if(a=="--time") tlimit=atof(nx().c_str()); else if(a=="--workers") g_workers=atoi(nx().c_str()); else if(a=="--maxinst") g_maxinst=strtoull(nx().c_str(),0,10); else if(a=="--qtimeout") g_qtimeout=atoi(nx().c_str()); else if(a=="--bv") g_bvonly=true; else if(a=="--dump"){ g_dump=fopen(nx().c_str(),"w"); } else if(a=="--dump-every") g_dumpEvery=atoi(nx().c_str()); else if(a=="--preempt") g_preempt=atoi(nx().c_str()); else if(a=="--trace") g_trace=true; else if(a=="--param") g_param=strtoull(nx().c_str(),0,10); else if(a=="--maxviol") g_maxviol=atoi(nx().c_str()); else prog=argv[i]; }
  if(!prog||entries.empty()){ fprintf(stderr,"usage: symx prog.ll --entry f [--entry g] --out file --time s --workers n\n"); return 3; }
  rlimit rl{512u<<20,RLIM_INFINITY}; getrlimit(RLIMIT_STACK,&rl); 
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)SH,0,sizeof *SH);
  outfd=open(out.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(outfd<0) outfd=1;
  double t0=now(); M.builtinOf=builtinId; M.load(prog);
  for(auto&f:M.funcs){ const std::string&n=f->name; f->isPanic = (n.find("4core9panicking")!=std::string::npos) || n.find("3std9panicking11begin_panic")!=std::string::npos || n.find("rust_panic")!=std::string::npos || n.find("18panic_already_")!=std::string::npos; }
  State*s=initState(); g_init=new State(*s); double tl=now()-t0;
  g_deadline=now()+tlimit; SH->tokens=g_workers; ES=&SH->e[0];
  if(entries.size()>MAXENT) fatal("too many entries");
  std::vector<pid_t> roots(entries.size(),0); std::vector<bool> done(entries.size(),false); size_t nexte=0, ndone=0; int rootsAlive=0; (void)rootsAlive;
  while(ndone<entries.size()){
    if(nexte<entries.size()){ int t=SH->tokens.load(); if(t>0&&SH->tokens.compare_exchange_strong(t,t-1)){
        size_t e=nexte++; auto it=M.fmap.find(entries[e]); if(it==M.fmap.end()||it->second->decl) fatal("no entry %s",entries[e].c_str());
        SH->e[e].t0=now(); pid_t p=fork(); if(p==0){ if(entries[e].find("big_")!=std::string::npos) g_maxinst*=20; curEntry=e; ES=&SH->e[e]; ES->procs++; S=s; enter(it->second,{},-1,0); pending.push_back(s); S=nullptr; workerLoop(); } roots[e]=p; continue; } }
    int st; pid_t r=waitpid(-1,&st,WNOHANG); if(r>0){ for(size_t e=0;e<roots.size();e++) if(roots[e]==r){ ndone++; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ SH->e[e].crashed++; SH->tokens++; if(!SH->e[e].msg[0]) snprintf(SH->e[e].msg,399,"worker ended with status %x",st); } } continue; }
    usleep(2000);
  }
  // report
  for(size_t e=0;e<entries.size();e++){ EntryStats&x=SH->e[e]; char b[3000]; bool complete=!x.limits&&!x.timeouts&&!x.unsupported&&!x.crashed&&!x.stop;
    snprintf(b,sizeof b,"E|%zu|{\"entry\":\"%s\",\"complete\":%s,\"paths\":%llu,\"assumed_away\":%llu,\"expected_panics\":%llu,\"violations\":%llu,\"forks\":%llu,\"decisions\":%llu,\"implied\":%llu,\"q_sat\":%llu,\"q_unsat\":%llu,\"q_unknown\":%llu,\"q_bv\":%llu,\"solver_s\":%.3f,\"insts\":%llu,\"asserts\":%llu,\"asserts_concrete\":%llu,\"asserts_proved\":%llu,\"limits\":%llu,\"timeouts\":%llu,\"unsupported\":%llu,\"crashed\":%llu,\"max_forks_on_path\":%llu,\"max_vars\":%llu,\"reach\":%llu,\"procs\":%llu,\"concretized\":%llu,\"conflicts\":%llu,\"seconds\":%.2f,\"msg\":\"%s\"}",e,entries[e].c_str(),complete?"true":"false",
      (unsigned long long)x.ok,(unsigned long long)x.assumed,(unsigned long long)x.expected_panic,(unsigned long long)x.violations,(unsigned long long)x.forks,(unsigned long long)x.decisions,(unsigned long long)x.implied,(unsigned long long)x.q_sat,(unsigned long long)x.q_unsat,(unsigned long long)x.q_unknown,(unsigned long long)x.q_bv,x.solver_us/1e6,(unsigned long long)x.insts,(unsigned long long)x.asserts,(unsigned long long)x.assert_const,(unsigned long long)x.assert_proved,(unsigned long long)x.limits,(unsigned long long)x.timeouts,(unsigned long long)x.unsupported,(unsigned long long)x.crashed,(unsigned long long)x.maxdepth,(unsigned long long)x.maxvars,(unsigned long long)x.reach,(unsigned long long)x.procs,(unsigned long long)x.concretized,(unsigned long long)x.conflicts,x.t1-x.t0,esc(x.msg).c_str());
    for(char*p=b+4;*p;p++) if(*p=='\\') *p='/';
    emit(b); }
  std::string fl="F|"; for(auto&f:M.funcs) if(f->idx<MAXFN&&SH->fn[f->idx].load()){ fl+=f->name; fl+=' '; } emit(fl);
  int mj,mn,bd,rv; Z3_get_version((unsigned*)&mj,(unsigned*)&mn,(unsigned*)&bd,(unsigned*)&rv); 
  char b[200]; snprintf(b,200,"D|{\"load_s\":%.2f,\"total_s\":%.2f,\"maxrss_kb\":%llu,\"z3\":\"%d.%d.%d\"}",tl,now()-t0,(unsigned long long)SH->maxrss,mj,mn,bd); emit(b);
  return 0;
}
