// Terms: hash-consed expressions over symbolic inputs, with interval bounds and a linear normal form.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8; typedef uint16_t u16;

[[noreturn]] void fatal(const char* fmt, ...);

enum TK : u8 { T_VAR, T_LIN, T_ITE, T_UDIV, T_UREM, T_ZEXT, T_SEXT, T_TRUNC, T_CONCAT,
  T_ADD, T_SUB, T_MUL, T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR, T_UDIVT, T_UREMT, T_SDIV, T_SREM,
  // floating point, on bit patterns (c: source width / kind)
  F_UITOFP, F_SITOFP, F_ADD, F_SUB, F_MUL, F_DIV, F_EXT, F_TRUNC, F_TOUI, F_TOSI, F_FLOOR, F_CEIL, F_RTZ, F_RNA, F_SQRT,
  // booleans
  B_LE0, B_EQ0, B_AND, B_OR, B_NOT, B_ITE, B_ULT, B_ULE, B_SLT, B_SLE, B_EQ, B_FCMP };

struct Term;
struct Val { u64 c; Term* t; };
static inline Val K(u64 c){ return Val{c,nullptr}; }
static inline u64 maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }

typedef std::vector<std::pair<Term*,i64>> LinV;

struct Term {
  TK k; u8 w; u8 nleaf; bool intok; // nleaf: number of constant leaves if an ITE tree over constants (0: not)
  u32 id; u32 size;
  u64 lo, hi;
  Val a, b, c;       // children
  LinV* lin=nullptr; i128 kc=0; // LIN / LE0 / EQ0
  // caches
  u64 estamp=0, eval=0;
  void* zi=nullptr; void* zb=nullptr; u32 zepoch=0, zbepoch=0;
};

struct TermPool {
  struct H { size_t operator()(const Term* t) const {
    u64 h = t->k*1315423911u + t->w*2654435761u;
    auto mix=[&](u64 x){ h ^= x + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); };
    mix(t->a.c); mix((u64)t->a.t); mix(t->b.c); mix((u64)t->b.t); mix(t->c.c); mix((u64)t->c.t);
    if(t->k==T_VAR){ mix(t->lo); mix(t->hi); }
    mix((u64)t->kc); mix((u64)(t->kc>>64));
    if(t->lin) for(auto&p:*t->lin){ mix((u64)p.first); mix((u64)p.second); }
    return h; } };
  struct E { bool operator()(const Term*x,const Term*y) const {
    if(x->k!=y->k||x->w!=y->w||x->kc!=y->kc) return false;
    if(x->a.c!=y->a.c||x->a.t!=y->a.t||x->b.c!=y->b.c||x->b.t!=y->b.t||x->c.c!=y->c.c||x->c.t!=y->c.t) return false;
    if(x->k==T_VAR && (x->lo!=y->lo||x->hi!=y->hi)) return false;
    if((x->lin==nullptr)!=(y->lin==nullptr)) return false;
    if(x->lin && *x->lin!=*y->lin) return false;
    return true; } };
  std::unordered_set<Term*,H,E> set;
  u32 next=0;
  Term* get(Term& proto){
    auto it=set.find(&proto);
    if(it!=set.end()){ if(proto.lin) delete proto.lin; return *it; }
    Term* t=new Term(proto); t->id=++next; set.insert(t); return t;
  }
};
extern TermPool pool;

static inline u64 vlo(Val v){ return v.t? v.t->lo : v.c; }
static inline u64 vhi(Val v){ return v.t? v.t->hi : v.c; }
static inline u32 vsize(Val v){ return v.t? v.t->size : 0; }
static inline bool vint(Val v){ return v.t? v.t->intok : true; }

static inline Term* mk(TK k, unsigned w, Val a, Val b, Val c, u64 lo, u64 hi, bool intok){
  Term p; p.k=k; p.w=w; p.a=a; p.b=b; p.c=c; p.lo=lo; p.hi=hi; p.nleaf=0;
  p.size=1+vsize(a)+vsize(b)+vsize(c); if(p.size>1000000) p.size=1000000;
  p.intok=intok&&vint(a)&&vint(b)&&vint(c);
  return pool.get(p);
}
static inline Term* mkVar(u32 idx, unsigned w, u64 lo, u64 hi){
  Term p; p.k=T_VAR; p.w=w; p.a=K(idx); p.b=K(0); p.c=K(0); p.lo=lo; p.hi=hi; p.nleaf=0; p.size=1; p.intok=true;
  return pool.get(p);
}
// ---------- linear forms
// the same number in words of different widths
static inline Term* stripW(Term* t){ while(t&&(t->k==T_ZEXT||(t->k==T_TRUNC&&t->a.t&&t->a.t->hi<=maskw(t->w)))) t=t->a.t; return t; }
static inline bool sameVal(Val a, Val b){ if(!a.t||!b.t) return !a.t&&!b.t&&a.c==b.c; return stripW(a.t)==stripW(b.t); }
struct Lin { LinV v; i128 k=0; bool bad=false; };
static inline void linAddTerm(Lin& l, Term* t, i64 c){
  // keep sorted by term id
  if(c>(1ll<<60)||c<-(1ll<<60)||l.v.size()>48){ l.bad=true; return; }
  if(t->k==T_LIN){ for(auto&p:*t->lin){ i64 m; if(__builtin_mul_overflow(p.second,c,&m)){ l.bad=true; return; } linAddTerm(l,p.first,m); }
    if(t->kc>((i128)1<<100)||t->kc<-((i128)1<<100)) l.bad=true; else if(c==1) l.k+=t->kc; else if(c==-1) l.k-=t->kc; else { i128 m; if(__builtin_mul_overflow(t->kc,(i128)c,&m)) l.bad=true; else l.k+=m; }
    return; }
  size_t i=0; while(i<l.v.size() && l.v[i].first->id<t->id) i++;
  if(i<l.v.size() && l.v[i].first==t){ i64 m; if(__builtin_add_overflow(l.v[i].second,c,&m)){ l.bad=true; return; } l.v[i].second=m; if(m==0) l.v.erase(l.v.begin()+i); }
  else l.v.insert(l.v.begin()+i,{t,c});
}
// c*k*(x/c) + k*(x%c) = k*x
static inline void linCombine(Lin& l){
  bool again=true;
  while(again&&!l.bad){ again=false;
    for(size_t i=0;i<l.v.size()&&!again;i++){ Term* m=l.v[i].first; if(m->k==T_ZEXT||m->k==T_TRUNC) m = (m->a.t&&m->a.t->k==T_UREM&&(m->k==T_ZEXT||m->a.t->hi<=maskw(m->w)))? m->a.t : m; if(m->k!=T_UREM||m->b.t) continue; i64 k=l.v[i].second, kc; if(__builtin_mul_overflow(k,(i64)m->b.c,&kc)) continue;
      for(size_t j=0;j<l.v.size();j++){ Term* d=l.v[j].first; if(d->k==T_ZEXT||(d->k==T_TRUNC&&d->a.t&&d->a.t->hi<=maskw(d->w))) d=d->a.t; if(!d||d->k!=T_UDIV||d->b.t||d->b.c!=m->b.c||!(d->a.t==m->a.t||sameVal(d->a,m->a))||l.v[j].second!=kc) continue;
        size_t x=std::max(i,j), y=std::min(i,j); l.v.erase(l.v.begin()+x); l.v.erase(l.v.begin()+y); linAddTerm(l,m->a.t,k); again=true; break; } } }
}
static inline void linAdd(Lin& l, Val v, i64 c){ if(v.t) linAddTerm(l,v.t,c); else l.k+=(i128)v.c*c; }
static inline void linRange(const Lin& l, i128& lo, i128& hi){
  lo=hi=l.k; for(auto&p:l.v){ i128 a=(i128)p.first->lo*p.second, b=(i128)p.first->hi*p.second; if(p.second>0){lo+=a;hi+=b;}else{lo+=b;hi+=a;} }
}
static inline Val linVal(const Lin& l, unsigned w, u64 lo, u64 hi){
  if(l.v.empty()) return K((u64)l.k & maskw(w));
  if(l.v.size()==1 && l.k==0 && l.v[0].second==1 && l.v[0].first->w==w) return Val{0,l.v[0].first};
  Term p; p.k=T_LIN; p.w=w; p.a=p.b=p.c=K(0); p.lo=lo; p.hi=hi; p.nleaf=0; p.lin=new LinV(l.v); p.kc=l.k; p.size=1; p.intok=true;
  for(auto&q:l.v){ p.size+=q.first->size; p.intok=p.intok&&q.first->intok; }
  return Val{0,pool.get(p)};
}
static inline bool linFits(const Lin& l, unsigned w, u64& lo, u64& hi){ if(l.bad) return false;
  i128 a,b; linRange(l,a,b); if(a<0 || b>(i128)maskw(w)) return false; lo=(u64)a; hi=(u64)b; return true;
}
// ---------- booleans
Val mkNot(Val a);
static inline Val mkBoolNode(TK k, Val a, Val b, Val c){ return Val{0,mk(k,1,a,b,c,0,1,true)}; }
static inline Val mkAndB(Val a, Val b){
  if(!a.t) return a.c? b : K(0); if(!b.t) return b.c? a : K(0);
  if(a.t==b.t) return a;
  if((a.t->k==B_NOT && a.t->a.t==b.t)||(b.t->k==B_NOT && b.t->a.t==a.t)) return K(0);
  if(a.t->id>b.t->id) std::swap(a,b);
  return mkBoolNode(B_AND,a,b,K(0));
}
static inline Val mkOrB(Val a, Val b){
  if(!a.t) return a.c? K(1) : b; if(!b.t) return b.c? K(1) : a;
  if(a.t==b.t) return a;
  if((a.t->k==B_NOT && a.t->a.t==b.t)||(b.t->k==B_NOT && b.t->a.t==a.t)) return K(1);
  if(a.t->id>b.t->id) std::swap(a,b);
  return mkBoolNode(B_OR,a,b,K(0));
}
inline Val mkNot(Val a){
  if(!a.t) return K(!a.c);
  if(a.t->k==B_NOT) return a.t->a;
  return mkBoolNode(B_NOT,a,K(0),K(0));
}
static inline Val mkIteB(Val c, Val a, Val b){
  if(!c.t) return c.c? a : b;
  if(!a.t && !b.t){ if(a.c==b.c) return a; return a.c? c : mkNot(c); }
  if(a.t && a.t==b.t) return a;
  if(!a.t) return a.c? mkOrB(c,b) : mkAndB(mkNot(c),b);
  if(!b.t) return b.c? mkOrB(mkNot(c),a) : mkAndB(c,a);
  return mkBoolNode(B_ITE,c,a,b);
}
static inline i128 fdiv128(i128 a, i128 b){ i128 q=a/b; if((a%b!=0) && ((a<0)!=(b<0))) q--; return q; }
static inline i64 gcd64(i64 a, i64 b){ if(a<0)a=-a; if(b<0)b=-b; while(b){ i64 t=a%b; a=b; b=t; } return a; }
static inline Val mkLinAtom(TK k, Lin& l){
  Term p; p.k=k; p.w=1; p.a=p.b=p.c=K(0); p.lo=0; p.hi=1; p.nleaf=0; p.lin=new LinV(l.v); p.kc=l.k; p.size=1; p.intok=true;
  for(auto&q:l.v){ p.size+=q.first->size; p.intok=p.intok&&q.first->intok; }
  return Val{0,pool.get(p)};
}
// l <= 0 over mathematical integers
static inline Val mkLe0(Lin l){
  i128 lo,hi; linRange(l,lo,hi); if(hi<=0) return K(1); if(lo>0) return K(0);
  i64 g=0; for(auto&p:l.v) g=gcd64(g,p.second);
  if(g>1){ for(auto&p:l.v) p.second/=g; l.k = -fdiv128(-l.k, g); /* sum <= floor(-k/g) */ }
  if(l.v[0].second<0){ // not( -l + 1 <= 0 )
    for(auto&p:l.v) p.second=-p.second; l.k=-l.k+1; return mkNot(mkLinAtom(B_LE0,l)); }
  return mkLinAtom(B_LE0,l);
}
static inline Val mkEq0(Lin l){
  i128 lo,hi; linRange(l,lo,hi); if(lo>0||hi<0) return K(0); if(l.v.empty()) return K(l.k==0);
  i64 g=0; for(auto&p:l.v) g=gcd64(g,p.second);
  if(g>1){ if(l.k % g != 0) return K(0); for(auto&p:l.v) p.second/=g; l.k/=g; }
  if(l.v[0].second<0){ for(auto&p:l.v) p.second=-p.second; l.k=-l.k; }
  return mkLinAtom(B_EQ0,l);
}
// ---------- ITE on words
static inline u8 leaves(Val v){ return v.t? v.t->nleaf : 1; }
static inline Val mkIte(Val c, Val a, Val b, unsigned w){
  if(w==1) return mkIteB(c,a,b);
  if(!c.t) return c.c? a : b;
  if(a.t==b.t && (a.t || a.c==b.c)) return a;
  if(c.t->k==B_NOT){ Val n=c.t->a; return mkIte(n,b,a,w); }
  u64 lo=std::min(vlo(a),vlo(b)), hi=std::max(vhi(a),vhi(b));
  Term* t=mk(T_ITE,w,c,a,b,lo,hi,true);
  u8 la=leaves(a), lb=leaves(b); if(la&&lb&&la+lb<=32) t->nleaf=la+lb;
  return Val{0,t};
}
template<class F> static inline Val liftLeaves(Val v, unsigned w, F f){ // v: ITE tree over constants
  if(!v.t) return f(v.c);
  return mkIte(v.t->a, liftLeaves(v.t->b,w,f), liftLeaves(v.t->c,w,f), w);
}
static inline bool isCL(Val v){ return v.t && v.t->nleaf; }
static inline u64 sx(u64 c, unsigned w){ if(w>=64) return c; u64 m=1ull<<(w-1); return ((c&maskw(w))^m)-m; }

static inline Val mkZext(Val a, unsigned wf, unsigned wt);
static inline Val mkAdd(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K((a.c+b.c)&maskw(w));
  if(w==1){ return mkIteB(a, mkNot(b), b); }
  if(!b.t&&b.c==0) return a; if(!a.t&&a.c==0) return b;
  if(isCL(a)&&!b.t) return liftLeaves(a,w,[&](u64 c){return K((c+b.c)&maskw(w));});
  if(isCL(b)&&!a.t) return liftLeaves(b,w,[&](u64 c){return K((c+a.c)&maskw(w));});
  { Lin l; linAdd(l,a,1); linAdd(l,b,1); if(l.v.size()>1) linCombine(l); u64 lo,hi; if(linFits(l,w,lo,hi)) return linVal(l,w,lo,hi);
    Lin m=l; m.k-=(i128)1<<w; if((!a.t||!b.t) && linFits(m,w,lo,hi)) return linVal(m,w,lo,hi); }
  return Val{0,mk(T_ADD,w,a,b,K(0),0,maskw(w),true)};
}
static inline Val mkSub(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K((a.c-b.c)&maskw(w));
  if(w==1) return mkIteB(a, mkNot(b), b);
  if(!b.t&&b.c==0) return a;
  if(a.t&&a.t==b.t) return K(0);
  if(isCL(a)&&!b.t) return liftLeaves(a,w,[&](u64 c){return K((c-b.c)&maskw(w));});
  if(isCL(b)&&!a.t) return liftLeaves(b,w,[&](u64 c){return K((a.c-c)&maskw(w));});
  { Lin l; linAdd(l,a,1); linAdd(l,b,-1); u64 lo,hi; if(linFits(l,w,lo,hi)) return linVal(l,w,lo,hi); 
    Lin m=l; m.k+=(i128)1<<w; if((!a.t||!b.t) && linFits(m,w,lo,hi)) return linVal(m,w,lo,hi); }
  return Val{0,mk(T_SUB,w,a,b,K(0),0,maskw(w),true)};
}
static inline Val mkMul(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K((a.c*b.c)&maskw(w));
  if(!a.t) std::swap(a,b);
  if(!b.t){
    if(b.c==0) return K(0); if(b.c==1) return a;
    if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K((c*b.c)&maskw(w));});
    if(b.c < (1ull<<40)){ Lin l; linAdd(l,a,(i64)b.c); u64 lo,hi; if(linFits(l,w,lo,hi)) return linVal(l,w,lo,hi); }
    return Val{0,mk(T_MUL,w,a,b,K(0),0,maskw(w), true)};
  }
  return Val{0,mk(T_MUL,w,a,b,K(0),0,maskw(w),false)};
}
// a = c*q + r with 0 <= r < c, read off the linear form
static inline bool splitMod(Term* t, u64 c, Lin& q, Lin& r){
  if(t->k!=T_LIN||c>=(1ull<<62)) return false;
  for(auto&p:*t->lin){ if(p.second%(i64)c==0) linAddTerm(q,p.first,p.second/(i64)c); else linAddTerm(r,p.first,p.second); }
  i128 k=t->kc%(i128)c; if(k<0) k+=c; r.k+=k; q.k+=(t->kc-k)/(i128)c;
  if(q.bad||r.bad) return false; i128 lo,hi; linRange(r,lo,hi); return lo>=0&&hi<(i128)c;
}
static inline Val mkUdiv(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(b.c? a.c/b.c : 0);
  if(!b.t && b.c){ if(b.c==1) return a; if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K(c/b.c);});
    if(vhi(a)/b.c==vlo(a)/b.c) return K(vlo(a)/b.c);
    if(a.t->k==T_LIN && b.c<(1ull<<62)){ bool ok=a.t->kc%(i128)b.c==0; for(auto&p:*a.t->lin) ok=ok&&p.second%(i64)b.c==0;
      if(ok){ Lin l; for(auto&p:*a.t->lin) linAddTerm(l,p.first,p.second/(i64)b.c); l.k+=a.t->kc/(i128)b.c; return linVal(l,w,vlo(a)/b.c,vhi(a)/b.c); } }
    { Lin q,r; if(splitMod(a.t,b.c,q,r)) return linVal(q,w,vlo(a)/b.c,vhi(a)/b.c); }
    return Val{0,mk(T_UDIV,w,a,b,K(0),vlo(a)/b.c,vhi(a)/b.c,true)}; }
  return Val{0,mk(T_UDIVT,w,a,b,K(0),0,vhi(a),false)};
}
static inline Val mkUrem(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(b.c? a.c%b.c : a.c);
  if(!b.t && b.c){ if(b.c==1) return K(0); if(vhi(a)<b.c) return a; if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K(c%b.c);});
    if(a.t->k==T_LIN && b.c<(1ull<<62)){ bool ok=true; for(auto&p:*a.t->lin) ok=ok&&p.second%(i64)b.c==0;
      if(ok){ i128 r=a.t->kc%(i128)b.c; if(r<0) r+=b.c; return K((u64)r); } }
    { Lin q,r; if(splitMod(a.t,b.c,q,r)){ i128 lo,hi; linRange(r,lo,hi); return linVal(r,w,(u64)lo,(u64)hi); } }
    return Val{0,mk(T_UREM,w,a,b,K(0),0,b.c-1,true)}; }
  return Val{0,mk(T_UREMT,w,a,b,K(0),0,vhi(a),false)};
}
static inline u64 lowMult(Val v);
static inline bool isPow2(u64 c){ return c && !(c&(c-1)); }
static inline Val mkTrunc(Val a, unsigned wf, unsigned wt);
static inline Val mkConcat(Val hi, unsigned wh, Val lo, unsigned wl);
static inline Val mkOr(Val a, Val b, unsigned w);
static inline Val mkShl(Val a, Val b, unsigned w);
static inline Val mkAnd(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(a.c&b.c);
  if(w==1) return mkAndB(a,b);
  if(!a.t) std::swap(a,b);
  if(a.t==b.t) return a;
  if(!b.t){
    if(b.c==0) return K(0); if(b.c==maskw(w)) return a;
    if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K(c&b.c);});
    if(isPow2(b.c+1)){ if(vhi(a)<=b.c) return a; return mkUrem(a,K(b.c+1),w); }
    // low bits known to be zero do not matter
    { u64 lm=lowMult(a); u64 c2=(b.c|(lm-1))&maskw(w); if(lm>1&&c2!=b.c&&(isPow2(c2+1)||c2==maskw(w))) return mkAnd(a,K(c2),w); }
    // mask clears every bit a can have?
    { u64 h=vhi(a); unsigned n=64-__builtin_clzll(h|1); if((b.c & maskw(n))==0) return K(0); if((b.c&maskw(n))==maskw(n)) return a; }
    if(a.t->k==T_OR){ Val x=mkAnd(a.t->a,b,w), y=mkAnd(a.t->b,b,w); if(!x.t||!y.t) return mkOr(x,y,w); }
    if(a.t->k==T_CONCAT){ unsigned wl=a.t->c.c; unsigned wh=w-wl;
      Val h=mkAnd(a.t->a,K((b.c>>wl)&maskw(wh)),wh), l=mkAnd(a.t->b,K(b.c&maskw(wl)),wl);
      return mkConcat(h,wh,l,wl); }
  }
  return Val{0,mk(T_AND,w,a,b,K(0),0,std::min(vhi(a),vhi(b)),false)};
}
static inline u64 lowMult(Val v){ // largest power of two known to divide v
  if(!v.t) return v.c? (v.c & -v.c) : (1ull<<63);
  if(v.t->k==T_LIN){ u64 g=1ull<<62; for(auto&p:*v.t->lin){ u64 c=(u64)(p.second<0?-p.second:p.second); g=std::min(g,c&-c);} i128 k=v.t->kc<0?-v.t->kc:v.t->kc; u64 kk=(u64)k; if(kk) g=std::min(g,kk&-kk); return g; }
  return 1;
}
static inline Val mkOr(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(a.c|b.c);
  if(w==1) return mkOrB(a,b);
  if(!a.t) std::swap(a,b);
  if(a.t==b.t) return a;
  if(!b.t){ if(b.c==0) return a; if(b.c==maskw(w)) return b; if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K(c|b.c);}); }
  // disjoint: behaves as addition
  u64 la=lowMult(a), lb=lowMult(b);
  if(vhi(b)<la || vhi(a)<lb) return mkAdd(a,b,w);
  return Val{0,mk(T_OR,w,a,b,K(0),std::max(vlo(a),vlo(b)),maskw(w),false)};
}
static inline Val mkXor(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(a.c^b.c);
  if(w==1) return mkIteB(a, mkNot(b), b);
  if(!a.t) std::swap(a,b);
  if(a.t==b.t) return K(0);
  if(!b.t){ if(b.c==0) return a; if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K(c^b.c);});
    if(b.c==maskw(w)) return mkSub(K(maskw(w)),a,w);
    { u64 h=vhi(a); unsigned n=64-__builtin_clzll(h|1); if((b.c&maskw(n))==0) return mkAdd(a,b,w); } }
  return Val{0,mk(T_XOR,w,a,b,K(0),0,maskw(w),false)};
}
static inline Val mkShl(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(b.c>=w?0:(a.c<<b.c)&maskw(w));
  if(!b.t){ if(b.c==0) return a; if(b.c>=w) return K(0); if(isCL(a)) return liftLeaves(a,w,[&](u64 c){return K((c<<b.c)&maskw(w));});
    return mkMul(a,K(1ull<<b.c),w); }
  if(isCL(b)&&!a.t) return liftLeaves(b,w,[&](u64 c){return K(c>=w?0:(a.c<<c)&maskw(w));});
  return Val{0,mk(T_SHL,w,a,b,K(0),0,maskw(w),false)};
}
static inline Val mkLshr(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(b.c>=w?0:a.c>>b.c);
  if(!b.t){ if(b.c==0) return a; if(b.c>=w) return K(0); return mkUdiv(a,K(1ull<<b.c),w); }
  if(isCL(b)&&!a.t) return liftLeaves(b,w,[&](u64 c){return K(c>=w?0:a.c>>c);});
  return Val{0,mk(T_LSHR,w,a,b,K(0),0,vhi(a),false)};
}
static inline Val mkAshr(Val a, Val b, unsigned w){
  if(!a.t&&!b.t){ u64 s=b.c>=w?w-1:b.c; return K((u64)((i64)sx(a.c,w)>>s)&maskw(w)); }
  if(vhi(a) <= maskw(w)>>1) return mkLshr(a,b,w);
  if(isCL(a)&&!b.t) return liftLeaves(a,w,[&](u64 c){ u64 s=b.c>=w?w-1:b.c; return K((u64)((i64)sx(c,w)>>s)&maskw(w)); });
  return Val{0,mk(T_ASHR,w,a,b,K(0),0,maskw(w),false)};
}
static inline Val mkZext(Val a, unsigned wf, unsigned wt){
  if(!a.t) return a; if(wf==wt) return a;
  if(wf==1) return mkIte(a,K(1),K(0),wt);
  if(a.t->nleaf) return liftLeaves(a,wt,[&](u64 c){return K(c);});
  if(a.t->k==T_LIN){ Lin l; linAdd(l,a,1); return linVal(l,wt,a.t->lo,a.t->hi); }
  return Val{0,mk(T_ZEXT,wt,a,K(0),K(wf),a.t->lo,a.t->hi,true)};
}
static inline Val mkSext(Val a, unsigned wf, unsigned wt){
  if(!a.t) return K(sx(a.c,wf)&maskw(wt));
  if(wf==1) return mkIte(a,K(maskw(wt)),K(0),wt);
  if(vhi(a)<=maskw(wf)>>1) return mkZext(a,wf,wt);
  if(a.t->nleaf) return liftLeaves(a,wt,[&](u64 c){return K(sx(c,wf)&maskw(wt));});
  return Val{0,mk(T_SEXT,wt,a,K(0),K(wf),0,maskw(wt),true)};
}
static inline Val mkNarrow(Val a, unsigned wt){ // value known to fit
  Lin l; linAdd(l,a,1); return linVal(l,wt,vlo(a),vhi(a));
}
static inline Val mkCmpEq(Val a, Val b, unsigned w);
static inline Val mkTrunc(Val a, unsigned wf, unsigned wt){
  if(!a.t) return K(a.c&maskw(wt)); if(wf==wt) return a;
  if(a.t->nleaf) return liftLeaves(a,wt,[&](u64 c){return K(c&maskw(wt));});
  if(wt==1){ Val r=mkUrem(a,K(2),wf); return mkCmpEq(r,K(1),wf); }
  if((a.t->k==T_ZEXT||a.t->k==T_SEXT) && a.t->c.c<=wt){ unsigned w0=a.t->c.c; return a.t->k==T_ZEXT? mkZext(a.t->a,w0,wt) : mkSext(a.t->a,w0,wt); }
  if(a.t->k==T_CONCAT && a.t->c.c==wt) return a.t->b;
  if(a.t->k==T_CONCAT && a.t->c.c>wt) return mkTrunc(a.t->b,a.t->c.c,wt);
  if(vhi(a)<=maskw(wt)){ if(a.t->k==T_LIN) return mkNarrow(a,wt); return Val{0,mk(T_TRUNC,wt,a,K(0),K(wf),a.t->lo,a.t->hi,true)}; }
  if(wt<62){ Lin q,r; if(splitMod(a.t,1ull<<wt,q,r)){ i128 lo,hi; linRange(r,lo,hi); return linVal(r,wt,(u64)lo,(u64)hi); } }
  return Val{0,mk(T_TRUNC,wt,a,K(0),K(wf),0,maskw(wt),true)};
}
static inline Val mkConcat(Val h, unsigned wh, Val l, unsigned wl){
  unsigned w=wh+wl;
  if(!h.t&&!l.t) return K((h.c<<wl)|l.c);
  if(!h.t&&h.c==0) return mkZext(l,wl,w);
  if(isCL(h)&&!l.t) return liftLeaves(h,w,[&](u64 c){return K((c<<wl)|l.c);});
  if(isCL(l)&&!h.t) return liftLeaves(l,w,[&](u64 c){return K((h.c<<wl)|c);});
  return Val{0,mk(T_CONCAT,w,h,l,K(wl),(vlo(h)<<wl)+vlo(l),(vhi(h)<<wl)+vhi(l),true)};
}
static inline Val mkExtractByte(Val a, unsigned w, unsigned i){ // byte i (little endian)
  if(!a.t) return K((a.c>>(8*i))&0xff);
  if(w==8) return a;
  if(a.t->k==T_CONCAT){ unsigned wl=a.t->c.c; if(wl%8==0){ if(i*8<wl) return mkExtractByte(a.t->b,wl,i); return mkExtractByte(a.t->a,w-wl,i-wl/8); } }
  if(a.t->k==T_ZEXT){ unsigned w0=a.t->c.c; if(w0%8==0){ if(i*8>=w0) return K(0); return mkExtractByte(a.t->a,w0,i); } }
  return mkTrunc(mkLshr(a,K(8*i),w),w,8);
}
// ---------- comparisons
static inline bool smallIte(Val v){ return v.t && v.t->k==T_ITE && v.t->size<=24; }
static inline Val mkUlt(Val a, Val b, unsigned w){ // a < b
  if(!a.t&&!b.t) return K(a.c<b.c);
  if(w==1) return mkAndB(mkNot(a),b);
  if(vhi(a)<vlo(b)) return K(1); if(vlo(a)>=vhi(b)) return K(0);
  if(smallIte(a)) return mkIteB(a.t->a, mkUlt(a.t->b,b,w), mkUlt(a.t->c,b,w));
  if(smallIte(b)) return mkIteB(b.t->a, mkUlt(a,b.t->b,w), mkUlt(a,b.t->c,w));
  Lin l; linAdd(l,a,1); linAdd(l,b,-1); l.k+=1; if(l.bad) return mkBoolNode(B_ULT,a,b,K(w)); return mkLe0(l);
}
static inline Val mkCmpEq(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(a.c==b.c);
  if(w==1) return mkIteB(a,b,mkNot(b));
  if(vhi(a)<vlo(b)||vhi(b)<vlo(a)) return K(0);
  if(a.t==b.t) return K(1);
  if(smallIte(a)) return mkIteB(a.t->a, mkCmpEq(a.t->b,b,w), mkCmpEq(a.t->c,b,w));
  if(smallIte(b)) return mkIteB(b.t->a, mkCmpEq(a,b.t->b,w), mkCmpEq(a,b.t->c,w));
  Lin l; linAdd(l,a,1); linAdd(l,b,-1); if(l.bad) return mkBoolNode(B_EQ,a,b,K(w)); return mkEq0(l);
}
static inline Val mkSlt(Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K((i64)sx(a.c,w)<(i64)sx(b.c,w));
  if(w==1) return mkAndB(a,mkNot(b));
  u64 top=maskw(w)>>1;
  bool an=vhi(a)<=top, bn=vhi(b)<=top, aneg=vlo(a)>top, bneg=vlo(b)>top;
  if((an&&bn)||(aneg&&bneg)) return mkUlt(a,b,w);
  if(an&&bneg) return K(0); if(aneg&&bn) return K(1);
  if(smallIte(a)) return mkIteB(a.t->a, mkSlt(a.t->b,b,w), mkSlt(a.t->c,b,w));
  if(smallIte(b)) return mkIteB(b.t->a, mkSlt(a,b.t->b,w), mkSlt(a,b.t->c,w));
  return mkBoolNode(B_SLT,a,b,K(w));
}
// ---------- floating point: words holding IEEE bit patterns
#include <cmath>
static inline float asF(u64 c){ u32 u=(u32)c; float x; memcpy(&x,&u,4); return x; }
static inline u64 ofF(float x){ u32 u; memcpy(&u,&x,4); if(x!=x) u=0x7fc00000u; return u; }
static inline double asD(u64 c){ double x; memcpy(&x,&c,8); return x; }
static inline u64 ofD(double x){ u64 u; memcpy(&u,&x,8); if(x!=x) u=0x7ff8000000000000ull; return u; }
static inline double asW(u64 c, unsigned w){ return w==32? (double)asF(c) : asD(c); }
static inline u64 fBin(TK k, u64 a, u64 b, unsigned w){
  if(w==32){ float x=asF(a),y=asF(b); return ofF(k==F_ADD?x+y:k==F_SUB?x-y:k==F_MUL?x*y:x/y); }
  double x=asD(a),y=asD(b); return ofD(k==F_ADD?x+y:k==F_SUB?x-y:k==F_MUL?x*y:x/y); }
static inline u64 fFromU(u64 a, unsigned w){ return w==32? ofF((float)a) : ofD((double)a); }
static inline u64 fFromS(u64 a, unsigned wf, unsigned w){ i64 s=(i64)sx(a,wf); return w==32? ofF((float)s) : ofD((double)s); }
static inline u64 fToU(u64 a, unsigned wf, unsigned w){ double d=asW(a,wf); if(!(d>0)) return 0; if(d>=ldexp(1.0,w)) return maskw(w); return (u64)d; }
static inline u64 fToS(u64 a, unsigned wf, unsigned w){ double d=asW(a,wf); double lim=ldexp(1.0,w-1); if(d!=d) return 0; if(d>=lim) return maskw(w)>>1; if(d<-lim) return (maskw(w)>>1)+1; return (u64)(i64)d&maskw(w); }
static inline u64 fUn(TK k, u64 a, unsigned w){ double d=asW(a,w); d= k==F_SQRT? (w==32? (double)sqrtf((float)d) : sqrt(d)) : k==F_FLOOR? floor(d) : k==F_CEIL? ceil(d) : k==F_RTZ? trunc(d) : round(d); return w==32? ofF((float)d) : ofD(d); }
static inline bool fCmp(unsigned p, u64 a, u64 b, unsigned w){ double x=asW(a,w),y=asW(b,w); bool un=x!=x||y!=y;
  switch(p){ case 0:return false; case 1:return !un&&x==y; case 2:return !un&&x>y; case 3:return !un&&x>=y; case 4:return !un&&x<y; case 5:return !un&&x<=y; case 6:return !un&&x!=y; case 7:return !un; case 8:return un||x==y; case 9:return un||x>y; case 10:return un||x>=y; case 11:return un||x<y; case 12:return un||x<=y; case 13:return un||x!=y; case 14:return un; default:return true; } }
static inline u64 fInf(unsigned w){ return w==32? 0x7f800000ull : 0x7ff0000000000000ull; }
static inline bool fNonNeg(Val a, unsigned w){ return vhi(a)<=fInf(w); } // not NaN, not negative
static inline Val mkFUn(TK k, Val a, unsigned wf, unsigned w){
  auto f=[&](u64 c){ return K(k==F_UITOFP?fFromU(c,w):k==F_SITOFP?fFromS(c,wf,w):k==F_EXT?ofD((double)asF(c)):k==F_TRUNC?ofF((float)asD(c)):k==F_TOUI?fToU(c,wf,w):k==F_TOSI?fToS(c,wf,w):fUn(k,c,w)); };
  if(!a.t) return f(a.c); if(isCL(a)) return liftLeaves(a,w,f);
  u64 lo=0, hi=maskw(w);
  if(k==F_SITOFP&&vhi(a)<=maskw(wf)>>1) k=F_UITOFP;
  if(k==F_UITOFP||((k==F_EXT||k==F_TRUNC||k==F_TOUI||(k>=F_FLOOR&&k<=F_SQRT))&&fNonNeg(a,k>=F_FLOOR&&k<=F_SQRT?w:wf))){ lo=f(vlo(a)).c; hi=f(vhi(a)).c; }
  if(lo==hi&&k==F_UITOFP) return K(lo);
  return Val{0,mk(k,w,a,K(0),K(wf),lo,hi,false)};
}
static inline Val mkFBin(TK k, Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(fBin(k,a.c,b.c,w));
  if(isCL(a)&&!b.t) return liftLeaves(a,w,[&](u64 c){return K(fBin(k,c,b.c,w));});
  if(isCL(b)&&!a.t) return liftLeaves(b,w,[&](u64 c){return K(fBin(k,a.c,c,w));});
  u64 lo=0, hi=maskw(w);
  if(k==F_ADD&&fNonNeg(a,w)&&fNonNeg(b,w)){ lo=fBin(k,vlo(a),vlo(b),w); hi=fBin(k,vhi(a),vhi(b),w); }
  if(k==F_MUL&&vhi(a)<fInf(w)&&vhi(b)<fInf(w)){ lo=fBin(k,vlo(a),vlo(b),w); hi=fBin(k,vhi(a),vhi(b),w); }
  if(k==F_DIV&&vhi(a)<fInf(w)&&vhi(b)<fInf(w)&&vlo(b)>0){ lo=fBin(k,vlo(a),vhi(b),w); hi=fBin(k,vhi(a),vlo(b),w); }
  return Val{0,mk(k,w,a,b,K(0),lo,hi,false)};
}
// comparisons of numbers that are not negative; conversion from integers is monotone
static inline bool isFromU(Val v){ return v.t&&v.t->k==F_UITOFP; }
static inline u64 fThreshold(u64 c, unsigned wf, unsigned w, bool& none){ // smallest integer x of wf bits with conversion(x) >= c
  u64 lo=0, hi=maskw(wf); none=fFromU(hi,w)<c; if(none) return 0; while(lo<hi){ u64 m=lo+(hi-lo)/2; if(fFromU(m,w)>=c) hi=m; else lo=m+1; } return lo; }
static inline Val fUlt(Val a, Val b, unsigned w){
  if(isFromU(a)&&!b.t){ bool none; u64 x=fThreshold(b.c,a.t->c.c,w,none); return none? K(1) : mkUlt(a.t->a,K(x),a.t->c.c); }
  if(isFromU(b)&&!a.t){ bool none; u64 x=fThreshold(a.c+1,b.t->c.c,w,none); return none? K(0) : mkNot(mkUlt(b.t->a,K(x),b.t->c.c)); }
  if(isFromU(a)&&isFromU(b)&&a.t->c.c==b.t->c.c) return mkAndB(mkUlt(a.t->a,b.t->a,a.t->c.c),mkUlt(a,b,w));
  return mkUlt(a,b,w); }
static inline Val fEq(Val a, Val b, unsigned w){
  if(isFromU(a)&&!b.t) return mkAndB(mkNot(fUlt(a,b,w)),mkNot(fUlt(b,a,w)));
  if(isFromU(b)&&!a.t) return fEq(b,a,w);
  if(isFromU(a)&&isFromU(b)&&a.t->c.c==b.t->c.c) return mkOrB(mkCmpEq(a.t->a,b.t->a,a.t->c.c),mkCmpEq(a,b,w));
  return mkCmpEq(a,b,w); }
static inline Val mkFCmp(unsigned p, Val a, Val b, unsigned w){
  if(!a.t&&!b.t) return K(fCmp(p,a.c,b.c,w));
  if(fNonNeg(a,w)&&fNonNeg(b,w)) switch(p&7){
    case 0: return p==8? fEq(a,b,w) : K(0);
    case 1: return p==9? fUlt(b,a,w) : fEq(a,b,w);
    case 2: return p==10? mkNot(fUlt(a,b,w)) : fUlt(b,a,w);
    case 3: return p==11? fUlt(a,b,w) : mkNot(fUlt(a,b,w));
    case 4: return p==12? mkNot(fUlt(b,a,w)) : fUlt(a,b,w);
    case 5: return p==13? mkNot(fEq(a,b,w)) : mkNot(fUlt(b,a,w));
    case 6: return p==14? K(0) : mkNot(fEq(a,b,w));
    case 7: return K(1); }
  if(isCL(a)&&!b.t) return liftLeaves(a,1,[&](u64 c){return K(fCmp(p,c,b.c,w));});
  if(isCL(b)&&!a.t) return liftLeaves(b,1,[&](u64 c){return K(fCmp(p,a.c,c,w));});
  return Val{0,mk(B_FCMP,1,a,b,K(p|(w<<8)),0,1,false)};
}
