// Reader for LLVM textual IR: globals eagerly, function bodies lazily.
#pragma once
#include "term.hpp"
#include <string_view>
#include <map>
#include <deque>
#include <algorithm>
#include <memory>
typedef std::string_view sv;

enum TyK : u8 { TY_VOID, TY_INT, TY_PTR, TY_F32, TY_F64, TY_ARR, TY_VEC, TY_STRUCT, TY_OTHER };
struct Type { TyK k; u32 n=0; bool packed=false; std::vector<Type*> e; u64 size=0, align=1; u32 slots=0; std::vector<u64> offs; };

struct TypeCtx {
  std::vector<std::unique_ptr<Type>> all; std::map<std::string,Type*> cache; std::map<std::string,std::string> named;
  Type* fin(const std::string& key, Type t){
    switch(t.k){
      case TY_VOID: case TY_OTHER: t.size=0; t.slots=0; break;
      case TY_INT: { u64 b=(t.n+7)/8; u64 a=1; while(a<b&&a<16) a*=2; t.align=a; t.size=b; t.slots=t.n>64?2:1; if(t.n>128) t.slots=(t.n+63)/64; break; }
      case TY_PTR: t.size=8; t.align=8; t.slots=1; break;
      case TY_F32: t.size=4; t.align=4; t.slots=1; break;
      case TY_F64: t.size=8; t.align=8; t.slots=1; break;
      case TY_ARR: { Type*e=t.e[0]; u64 st=stride(e); t.size=st*t.n; t.align=e->align; t.slots=e->slots*t.n; break; }
      case TY_VEC: { Type*e=t.e[0]; u64 bits = e->k==TY_INT? (u64)e->n*t.n : e->size*8*t.n; t.size=(bits+7)/8; t.align=t.size; t.slots=e->slots*t.n; break; }
      case TY_STRUCT: { u64 o=0,al=1; for(auto e:t.e){ if(!t.packed){ o=(o+e->align-1)/e->align*e->align; al=std::max(al,e->align);} t.offs.push_back(o); o+= t.packed? e->size : stride(e); t.slots+=e->slots; } if(!t.packed) o=(o+al-1)/al*al; t.size=o; t.align=al; break; }
    }
    all.push_back(std::make_unique<Type>(t)); cache[key]=all.back().get(); return all.back().get();
  }
  static u64 stride(Type* e){ return (e->size+e->align-1)/e->align*e->align; }
};
struct Lex {
  const char* p; const char* e;
  Lex(sv s):p(s.data()),e(s.data()+s.size()){}
  void ws(){ while(p<e && (*p==' '||*p=='\t'||*p=='\n'||*p=='\r')) p++; }
  bool end(){ ws(); return p>=e; }
  char peek(){ ws(); return p<e?*p:0; }
  bool eat(char c){ ws(); if(p<e&&*p==c){p++;return true;} return false; }
  void need(char c){ if(!eat(c)){ std::string s(p,std::min<size_t>(e-p,80)); fatal("IR: expected '%c' at: %s",c,s.c_str()); } }
  static bool idc(char c){ return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-'; }
  sv word(){ ws(); const char*b=p; while(p<e&&idc(*p)) p++; return sv(b,p-b); }
  bool eatw(sv w){ ws(); if((size_t)(e-p)>=w.size() && sv(p,w.size())==w && (p+w.size()==e || !idc(p[w.size()]))){ p+=w.size(); return true; } return false; }
  sv name(){ // after @ or %
    ws(); if(p<e&&*p=='"'){ const char*b=p; p++; while(p<e&&*p!='"')p++; p++; return sv(b,p-b); }
    const char*b=p; while(p<e&&idc(*p)) p++; return sv(b,p-b); }
  void balanced(){ // p at '('
    int d=0; bool q=false; while(p<e){ char c=*p++; if(q){ if(c=='"') q=false; continue; } if(c=='"'){q=true;continue;} if(c=='('||c=='['||c=='{') d++; else if(c==')'||c==']'||c=='}'){ if(--d==0) return; } } }
};

struct Func;
enum Op : u8 { I_NOP, I_ADD,I_SUB,I_MUL,I_UDIV,I_SDIV,I_UREM,I_SREM,I_AND,I_OR,I_XOR,I_SHL,I_LSHR,I_ASHR, I_ICMP, I_SELECT, I_COPY, I_INSERT,
  I_ZEXT,I_SEXT,I_TRUNC,I_BITCAST, I_LOAD,I_STORE,I_GEP,I_ALLOCA,I_BR,I_CBR,I_SWITCH,I_RET,I_CALL,I_SHUFFLE,I_INSELT,I_EXTELT,
  I_RMW,I_CMPXCHG,I_FADD,I_FSUB,I_FMUL,I_FDIV,I_FCMP,I_UITOFP,I_SITOFP,I_FPTOUI,I_FPTOSI,I_FPEXT,I_FPTRUNC,I_FNEG,I_UNREACH,I_UNSUP };
enum Pred : u8 { P_EQ,P_NE,P_UGT,P_UGE,P_ULT,P_ULE,P_SGT,P_SGE,P_SLT,P_SLE };

typedef i32 Opd; // >=0: register slot; <0: constant ~i
struct PCopy { i32 dst; Opd src; u32 n; };
struct Edge { u32 target; std::vector<PCopy> copies; };
struct GepIdx { Opd o; u16 w; u64 scale; };
struct Arg { Opd o; u32 n; };
struct MemPart { u32 off; u16 bits; };
struct Inst { u8 op; u8 sub=0; u16 w=0; u16 w2=0; u16 n=1; i32 dst=-1; Opd a=0,b=0,c=0; u64 imm=0; i32 x=-1; u32 line=0; };
struct CallInfo { Func* f=nullptr; int builtin=-1; Opd fp=0; bool indirect=false; std::vector<Arg> args; u32 retn=0; u16 retw=0; u16 argw=0; std::string name; };
struct SwitchInfo { std::vector<std::pair<u64,u32>> cases; u32 def; };
struct Func {
  std::string name; u32 idx=0; bool decl=false, weak=false, decoded=false; sv header, body; int builtin=-2;
  bool isPanic=false; bool isRepo=false;
  u32 nslots=0; std::vector<Val> consts; std::vector<Inst> code; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> switches;
  std::vector<std::vector<GepIdx>> geps; std::vector<std::vector<MemPart>> parts; std::vector<std::vector<u32>> shuf; std::vector<std::string> msgs;
  std::vector<Arg> params; u32 retn=0;
};
struct Global { std::string name; bool isConst=false, ext=false; Type* ty=nullptr; sv init; u64 addr=0; u32 id=0; };

static const u64 FNBASE=0x7fff000000000000ull;

struct Module {
  std::string text; TypeCtx tc; std::vector<std::unique_ptr<Func>> funcs; std::unordered_map<std::string,Func*> fmap;
  std::vector<std::unique_ptr<Global>> globals; std::unordered_map<std::string,Global*> gmap;
  std::unordered_map<std::string,std::string> aliases;
  std::function<int(const std::string&)> builtinOf; std::function<bool(Func*)> classify;

  Type* parseType(Lex& L){
    L.ws(); const char* b=L.p; Type* t=base(L);
    (void)b; return t;
  }
  Type* intT(u32 n){ std::string k="i"+std::to_string(n); auto it=tc.cache.find(k); if(it!=tc.cache.end()) return it->second; Type t{TY_INT}; t.n=n; return tc.fin(k,t); }
  Type* simple(const char* k, TyK kind){ auto it=tc.cache.find(k); if(it!=tc.cache.end()) return it->second; Type t{kind}; return tc.fin(k,t); }
  Type* ptrT(){ return simple("ptr",TY_PTR); }
  static bool typeStart(Lex& L){ char c=L.peek(); if(c=='{'||c=='['||c=='<'||c=='%') return true;
    const char*p=L.p; const char*q=p; while(q<L.e&&Lex::idc(*q)) q++; sv w(p,q-p);
    if(w.size()>=2&&w[0]=='i'){ bool d=true; for(size_t i=1;i<w.size();i++) if(!isdigit(w[i])) d=false; if(d) return true; }
    return w=="ptr"||w=="void"||w=="float"||w=="double"||w=="metadata"||w=="label"||w=="half"||w=="token"; }
  Type* base(Lex& L){
    char c=L.peek();
    if(c=='['||c=='<'){
      if(c=='<' && L.p+1<L.e && L.p[1]=='{'){ L.p++; Type*t=strct(L,true); L.need('>'); return t; }
      L.p++; sv n=L.word(); if(!L.eatw("x")) fatal("IR type array"); Type*e=base(L); L.need(c=='['?']':'>');
      std::string k=std::string(1,c)+std::string(n)+"x"+std::to_string((u64)e); auto it=tc.cache.find(k); if(it!=tc.cache.end()) return it->second;
      Type t{c=='['?TY_ARR:TY_VEC}; t.n=atoi(std::string(n).c_str()); t.e.push_back(e); return tc.fin(k,t);
    }
    if(c=='{') return strct(L,false);
    if(c=='%'){ L.p++; std::string n(L.name()); auto it=tc.named.find(n); if(it==tc.named.end()||it->second=="opaque") return simple("opaque",TY_OTHER); Lex M(it->second); return base(M); }
    sv w=L.word();
    Type* r=nullptr;
    if(w=="ptr"){ r=ptrT(); if(L.peek()=='a'){ sv rest(L.p,L.e-L.p); if(rest.substr(0,10)=="addrspace("){ L.word(); L.balanced(); } } }
    else if(w=="void") r=simple("void",TY_VOID); else if(w=="float") r=simple("float",TY_F32); else if(w=="double") r=simple("double",TY_F64);
    else if(w.size()>1&&w[0]=='i'&&isdigit(w[1])) r=intT(atoi(std::string(w.substr(1)).c_str()));
    else r=simple("other",TY_OTHER);
    return r;
  }
  Type* strct(Lex& L, bool packed){
    L.need('{'); Type t{TY_STRUCT}; t.packed=packed; std::string k=packed?"<{":"{";
    if(!L.eat('}')){ do { Type*e=base(L); t.e.push_back(e); k+=std::to_string((u64)e)+","; } while(L.eat(',')); L.need('}'); }
    auto it=tc.cache.find(k); if(it!=tc.cache.end()) return it->second; return tc.fin(k,t);
  }
  static void flat(Type* t, u64 off, std::vector<MemPart>& out){
    switch(t->k){ case TY_INT: if(t->n>64){ u64 left=t->n; u64 o=off; while(left>0){ u64 b=std::min<u64>(64,left); out.push_back({(u32)o,(u16)b}); o+=8; left-=b; } } else out.push_back({(u32)off,(u16)t->n}); break;
      case TY_PTR: case TY_F64: out.push_back({(u32)off,64}); break; case TY_F32: out.push_back({(u32)off,32}); break;
      case TY_ARR: for(u32 i=0;i<t->n;i++) flat(t->e[0],off+i*TypeCtx::stride(t->e[0]),out); break;
      case TY_VEC: for(u32 i=0;i<t->n;i++) flat(t->e[0],off+i*t->e[0]->size,out); break;
      case TY_STRUCT: for(size_t i=0;i<t->e.size();i++) flat(t->e[i],off+t->offs[i],out); break; default: break; } }

  // ---- constants
  std::function<u64(const std::string&)> symAddr;
  static u64 parseInt(sv w){ bool neg=false; size_t i=0; if(w.size()&&w[0]=='-'){neg=true;i=1;} u64 v=0; for(;i<w.size();i++) v=v*10+(w[i]-'0'); return neg? -v : v; }
  static u128 parseInt128(sv w){ bool neg=false; size_t i=0; if(w.size()&&w[0]=='-'){neg=true;i=1;} u128 v=0; for(;i<w.size();i++) v=v*10+(w[i]-'0'); return neg? -v : v; }
  // parse constant of type t, append slot values
  bool isConstStart(Lex& L){ return L.peek()!='%'; }
  void constant(Lex& L, Type* t, std::vector<u64>& out){
    char c=L.peek();
    if(c=='@'){ L.p++; std::string n(L.name()); out.push_back(symAddr(n)); return; }
    if(c=='c' && L.p+1<L.e && L.p[1]=='"'){ L.p+=2; while(*L.p!='"'){ if(*L.p=='\\'&&L.p[1]=='\\'){ out.push_back('\\'); L.p+=2; } else if(*L.p=='\\'){ auto hx=[](char c){ return c<='9'?c-'0':(c|32)-'a'+10; }; out.push_back(hx(L.p[1])*16+hx(L.p[2])); L.p+=3; } else out.push_back((u8)*L.p++); } L.p++; return; }
    if(c=='{'||c=='['||c=='<'){
      if(c=='<'&&L.p[1]=='{'){ L.p+=2; if(!L.eat('}')){ do{ Type*e=base(L); constant(L,e,out);}while(L.eat(',')); L.need('}'); } L.need('>'); return; }
      L.p++; char cl=c=='{'?'}':c=='['?']':'>'; if(!L.eat(cl)){ do{ Type*e=base(L); constant(L,e,out);}while(L.eat(',')); L.need(cl); } return;
    }
    const char* save=L.p; sv w=L.word();
    if(w=="zeroinitializer"||w=="undef"||w=="poison"){ for(u32 i=0;i<t->slots;i++) out.push_back(0); return; }
    if(w=="null"||w=="none"||w=="false"){ out.push_back(0); return; }
    if(w=="true"){ out.push_back(1); return; }
    if(w=="splat"){ L.need('('); Type*e=base(L); std::vector<u64> o; constant(L,e,o); L.need(')'); for(u32 i=0;i<t->n;i++) for(u64 x:o) out.push_back(x); return; }
    if(w=="inttoptr"||w=="ptrtoint"||w=="bitcast"||w=="trunc"||w=="zext"||w=="addrspacecast"){ L.need('('); Type*e=base(L); std::vector<u64> o; constant(L,e,o); if(!L.eatw("to")) fatal("IR cexpr"); Type*t2=base(L); L.need(')'); u64 m=t2->k==TY_INT?maskw(t2->n):~0ull; out.push_back(o[0]&m); return; }
    if(w=="getelementptr"){ while(L.peek()!='(') { L.word(); if(L.peek()=='('){ const char*q=L.p; (void)q; break; } }
      // possible inrange(...)
      sv prev(save,L.p-save); if(prev.find("inrange")!=sv::npos){ L.balanced(); }
      L.need('('); Type*et=base(L); L.need(','); base(L); std::vector<u64> bse; constant(L,ptrT(),bse); u64 a=bse[0]; bool first=true; Type*cur=et;
      while(L.eat(',')){ while(L.eatw("inrange")){} Type*it=base(L); std::vector<u64> o; constant(L,it,o); i64 ix=(i64)sx(o[0],it->n); if(first){ a+=ix*TypeCtx::stride(et); first=false; } else if(cur->k==TY_STRUCT){ a+=cur->offs[ix]; cur=cur->e[ix]; } else { cur=cur->e[0]; a+=ix*TypeCtx::stride(cur); } }
      L.need(')'); out.push_back(a); return; }
    if(w=="sub"||w=="add"){ while(L.peek()!='(') L.word(); L.need('('); Type*e=base(L); std::vector<u64> o; constant(L,e,o); L.need(','); base(L); std::vector<u64> q; constant(L,e,q); L.need(')'); out.push_back((w=="sub"?o[0]-q[0]:o[0]+q[0])&maskw(e->n)); return; }
    if(w.size()&&(isdigit(w[0])||w[0]=='-'||w[0]=='f')){
      if(t->k==TY_F32||t->k==TY_F64){ double d; 
        if(w[0]=='f'||(L.p<L.e&&*L.p=='+')||w.find('x')!=sv::npos){ }
        if(w.size()>2&&w[0]=='0'&&w[1]=='x'){ u64 bits=strtoull(std::string(w).c_str(),nullptr,16); memcpy(&d,&bits,8); }
        else if(w.size()>2&&w[0]=='f'&&w[1]=='0'){ u64 bits=strtoull(std::string(w.substr(1)).c_str(),nullptr,16); if(t->k==TY_F32) out.push_back(bits); else out.push_back(bits); return; }
        else { std::string s(w); if(L.p<L.e&&*L.p=='+'){ L.p++; s+="+"; s+=std::string(L.word()); } d=strtod(s.c_str(),nullptr); }
        if(t->k==TY_F32){ float f=(float)d; u32 u; memcpy(&u,&f,4); out.push_back(u); } else { u64 u; memcpy(&u,&d,8); out.push_back(u); } return; }
      if(t->k==TY_INT&&t->n>64){ u128 v=parseInt128(w); out.push_back((u64)v); out.push_back((u64)(v>>64)&maskw(t->n-64)); return; }
      out.push_back(parseInt(w)&maskw(t->k==TY_INT?t->n:64)); return; }
    std::string s(save,std::min<size_t>(L.e-save,100)); fatal("IR: unknown constant: %s",s.c_str());
  }
  // ---- load
  void load(const char* path){
    FILE*f=fopen(path,"rb"); if(!f) fatal("cannot open %s",path); char buf[1<<16]; size_t n; while((n=fread(buf,1,sizeof buf,f))>0) text.append(buf,n); fclose(f);
    size_t i=0; const std::string& T=text;
    while(i<T.size()){
      size_t j=T.find('\n',i); if(j==std::string::npos) j=T.size();
      sv line(&T[i],j-i);
      if(line.size()&&line[0]=='@') parseGlobal(line);
      else if(line.size()&&line[0]=='%'){ size_t e=line.find(" = type "); if(e!=sv::npos) tc.named[std::string(line.substr(1,e-1))]=std::string(line.substr(e+8)); }
      else if(line.substr(0,7)=="define "||line.substr(0,8)=="declare "){
        bool def=line[2]=='f'; size_t at=0; bool q=false; for(size_t k=0;k<line.size();k++){ if(line[k]=='"') q=!q; if(!q&&line[k]=='@'){ at=k; break; } }
        Lex L(line.substr(at+1)); std::string nm(L.name());
        auto fn=std::make_unique<Func>(); fn->name=nm; fn->decl=!def; fn->header=line; fn->idx=funcs.size(); fn->weak=line.find("extern_weak")!=sv::npos&&line.find("extern_weak")<at;
        if(def){ size_t e=T.find("\n}\n",j); if(e==std::string::npos) e=T.size(); fn->body=sv(&T[j+1],e-j-1); j=e+2; }
        fmap[nm]=fn.get(); funcs.push_back(std::move(fn));
      }
      i=j+1;
    }
  }
  void parseGlobal(sv line){
    Lex L(line.substr(1)); auto g=std::make_unique<Global>(); g->name=std::string(L.name()); L.need('=');
    while(true){ sv w=L.word(); if(w.empty()) fatal("IR global %s",g->name.c_str()); if(w=="global"||w=="constant"){ g->isConst=w=="constant"; break; }
      if(w=="alias"){ base(L); L.need(','); base(L); L.need('@'); aliases[g->name]=std::string(L.name()); return; }
      if(w=="external"||w=="extern_weak") g->ext=true; if(L.p<L.e&&*L.p=='(') L.balanced(); }
    g->ty=base(L); g->init=sv(L.p,L.e-L.p); gmap[g->name]=g.get(); globals.push_back(std::move(g));
  }
  // ---- function decode
  struct Dec { Func* f; std::unordered_map<sv,std::pair<i32,u32>> regs; std::unordered_map<u64,i32> constCache; std::unordered_map<sv,u32> labels; };
  i32 slotOf(Dec& D, sv name, u32 n){ auto it=D.regs.find(name); if(it!=D.regs.end()){ if(it->second.second!=n) fatal("IR: slot mismatch in %s %%%s: %u %u",D.f->name.c_str(),std::string(name).c_str(),it->second.second,n); return it->second.first; } i32 s=D.f->nslots; D.f->nslots+=n; D.regs[name]={s,n}; return s; }
  Opd constOpd(Dec& D, const std::vector<u64>& v){ if(v.size()==1){ auto it=D.constCache.find(v[0]); if(it!=D.constCache.end()) return it->second; } i32 b=D.f->consts.size(); for(u64 x:v) D.f->consts.push_back(K(x)); Opd o=~b; if(v.size()==1) D.constCache[v[0]]=o; return o; }
  void skipAttrs(Lex& L){ while(true){ char c=L.peek(); if(!isalpha((unsigned char)c)&&c!='"'&&c!='#') return; if(c=='#'){ L.p++; L.word(); continue; } if(c=='"'){ L.name(); if(L.eat('=')) L.name(); continue; }
      const char*q=L.p; sv w=L.word();
      if(w=="align"&&L.peek()!='('){ L.word(); continue; }
      if(L.p<L.e&&*L.p=='('){ if(w=="byval"||w=="inalloca"||w=="preallocated"){ fatal("IR: %s",std::string(w).c_str()); } if(isAttrParen(w)){ L.balanced(); continue; } L.p=q; return; }
      if(isAttr(w)) continue; L.p=q; return; } }
  static bool isAttrParen(sv w){ return w=="range"||w=="dereferenceable"||w=="dereferenceable_or_null"||w=="captures"||w=="align"||w=="sret"||w=="initializes"||w=="nofpclass"||w=="elementtype"||w=="allocsize"||w=="memory"||w=="addrspace"||w=="byref"||w=="alignstack"||w=="allockind"||w=="vscale_range"; }
  static bool isAttr(sv w){ static const std::unordered_set<std::string> s={"noundef","nonnull","noalias","nocapture","readonly","writeonly","readnone","signext","zeroext","inreg","returned","nest","immarg","swiftself","swifterror","swiftasync","noext","dead_on_unwind","writable","dead_on_return","allocptr","allocalign","nofree","nounwind","fastcc","coldcc","ccc","tailcc","preserve_mostcc","preserve_allcc","preserve_nonecc","tail","musttail","notail","nnan","ninf","nsz","arcp","contract","afn","reassoc","fast","inbounds","nuw","nsw","nusw","exact","disjoint","nneg","samesign","volatile","atomic","weak","acquire","release","monotonic","acq_rel","seq_cst","unordered","unnamed_addr","local_unnamed_addr","dso_local","internal","private","hidden","protected","linkonce_odr","weak_odr","linkonce","inrange"}; return s.count(std::string(w)); }
  Opd operand(Dec& D, Lex& L, Type* t){
    if(L.peek()=='%'){ L.p++; sv n=L.name(); return slotOf(D,n,t->slots); }
    if(t->k==TY_OTHER){ // metadata etc
      return 0; }
    std::vector<u64> v; constant(L,t,v); if(v.size()!=t->slots) { if(t->slots==0) return 0; fatal("IR: const slots %zu vs %u in %s",v.size(),t->slots,D.f->name.c_str()); } return constOpd(D,v);
  }
  void decodeHeader(Func* f, Dec& D, Type*& rt){
    sv line=f->header; size_t at=0; bool q=false; for(size_t k=0;k<line.size();k++){ if(line[k]=='"') q=!q; if(!q&&line[k]=='@'){ at=k; break; } }
    Lex L(line.substr(0,at)); L.word(); while(!typeStart(L)){ if(L.end()) fatal("IR header %s",f->name.c_str()); L.word(); if(L.p<L.e&&*L.p=='(') L.balanced(); else if(L.p<L.e&&*L.p=='"') L.name(); }
    // return attrs may precede type, e.g. range(i8 0, 2) i8 -- handled by balanced
    rt=base(L); f->retn=rt->slots;
    Lex M(line.substr(at+1)); M.name(); M.need('('); int cnt=0;
    if(!M.eat(')')){ do{ if(M.peek()=='.'){ M.p+=3; continue; } Type*t=base(M); skipAttrs(M); sv nm; if(M.peek()=='%'){ M.p++; nm=M.name(); } else nm=sv(); 
        if(nm.size()){ i32 s=slotOf(D,nm,t->slots); f->params.push_back({s,t->slots}); if(isdigit(nm[0])) cnt=std::max(cnt,atoi(std::string(nm).c_str())+1); } } while(M.eat(',')); M.need(')'); }
    entryNum=cnt;
  }
  int entryNum=0;
  static u8 predOf(sv w){ if(w=="eq")return P_EQ; if(w=="ne")return P_NE; if(w=="ugt")return P_UGT; if(w=="uge")return P_UGE; if(w=="ult")return P_ULT; if(w=="ule")return P_ULE; if(w=="sgt")return P_SGT; if(w=="sge")return P_SGE; if(w=="slt")return P_SLT; return P_SLE; }
  static u16 ebits(Type* t){ if(t->k==TY_VEC||t->k==TY_ARR) return ebits(t->e[0]); if(t->k==TY_INT) return t->n; if(t->k==TY_F32) return 32; return 64; }
  std::deque<std::string>* strs=nullptr;
  void decode(Func* f){
    f->decoded=true; Dec D; D.f=f; Type* rt=nullptr; decodeHeader(f,D,rt);
    struct Phi { i32 dst; u32 n; std::vector<std::pair<Opd,sv>> in; };
    struct Blk { sv name; u32 pc; std::vector<Phi> phis; };
    std::vector<Blk> blks; std::string entry=std::to_string(entryNum); blks.push_back({sv(),0,{}});
    std::string* en=new std::string(entry); blks[0].name=sv(*en);
    struct Fix { u32 inst; int which; u32 blk; sv target; }; std::vector<Fix> fixes;
    std::vector<std::pair<u32,std::vector<std::pair<u64,sv>>>> swfix; std::vector<std::pair<u32,u32>> swblk;
    sv B=f->body; size_t i=0; bool first=true; u32 lineno=0;
    while(i<B.size()){
      size_t j=B.find('\n',i); if(j==sv::npos) j=B.size(); sv line=B.substr(i,j-i); i=j+1; lineno++;
      if(line.empty()||line[0]==';') continue;
      if(line[0]!=' '){ // label
        size_t c=0; if(line[0]=='"'){ c=line.find('"',1)+1; } else c=line.find(':'); sv nm=line.substr(0,c);
        if(first&&f->code.empty()&&blks.size()==1&&blks[0].phis.empty()){ blks[0].name=nm; } else blks.push_back({nm,(u32)f->code.size(),{}});
        first=false; continue; }
      if(line.substr(0,6)=="    #d") continue; 
      first=false; Lex L(line); if(L.end()) continue; if(*L.p=='#'||*L.p==';') continue;
      // switch spans lines
      std::string* joined=nullptr;
      if(line.find(" switch ")!=sv::npos && line.back()=='['){ size_t e=B.find("\n  ]",j); joined=nullptr; line=B.substr(line.data()-B.data(), e+4-(line.data()-B.data())); i=e+4; size_t nl=B.find('\n',i); i=nl==sv::npos?B.size():nl+1; L=Lex(line); }
      (void)joined;
      sv res; bool has=false;
      if(L.peek()=='%'){ L.p++; res=L.name(); L.need('='); has=true; }
      Inst I; memset((void*)&I,0,sizeof I); I.n=1; I.dst=-1; I.x=-1; I.line=lineno;
      const char* opstart=L.p; sv op=L.word();
      auto def=[&](Type*t){ I.dst=slotOf(D,res,t->slots); };
      auto unsup=[&](){ I.op=I_UNSUP; I.x=f->msgs.size(); f->msgs.push_back(std::string(line.substr(0,160))); };
      auto attrs=[&](){ skipAttrs(L); };
      static const std::map<std::string,u8,std::less<>> bin={{"add",I_ADD},{"sub",I_SUB},{"mul",I_MUL},{"udiv",I_UDIV},{"sdiv",I_SDIV},{"urem",I_UREM},{"srem",I_SREM},{"and",I_AND},{"or",I_OR},{"xor",I_XOR},{"shl",I_SHL},{"lshr",I_LSHR},{"ashr",I_ASHR},{"fadd",I_FADD},{"fsub",I_FSUB},{"fmul",I_FMUL},{"fdiv",I_FDIV}};
      static const std::map<std::string,u8,std::less<>> cast={{"zext",I_ZEXT},{"sext",I_SEXT},{"trunc",I_TRUNC},{"bitcast",I_BITCAST},{"ptrtoint",I_ZEXT},{"inttoptr",I_ZEXT},{"ptrtoaddr",I_ZEXT},{"uitofp",I_UITOFP},{"sitofp",I_SITOFP},{"fptoui",I_FPTOUI},{"fptosi",I_FPTOSI},{"fpext",I_FPEXT},{"fptrunc",I_FPTRUNC}};
      auto bi=bin.find(op);
      auto ci=cast.find(op);
      if(bi!=bin.end()){ attrs(); Type*t=base(L); I.op=bi->second; I.w=ebits(t); I.n=I.w>64?1:t->slots; I.a=operand(D,L,t); L.need(','); I.b=operand(D,L,t); def(t); if(t->k==TY_F64) I.sub=1; if(t->k==TY_INT&&t->n>128) unsup(); }
      else if(op=="icmp"||op=="fcmp"){ attrs(); sv p=L.word(); while(!typeStart(L)) L.word(); 
        Type*t=base(L); I.op=op=="icmp"?I_ICMP:I_FCMP; if(op=="icmp") I.sub=predOf(p); else { static const std::map<std::string,u8,std::less<>> fp={{"false",0},{"oeq",1},{"ogt",2},{"oge",3},{"olt",4},{"ole",5},{"one",6},{"ord",7},{"ueq",8},{"ugt",9},{"uge",10},{"ult",11},{"ule",12},{"une",13},{"uno",14},{"true",15}}; auto it=fp.find(p); if(it==fp.end()) fatal("fcmp"); I.sub=it->second; I.imm=t->k==TY_F64; }
        I.w=ebits(t); I.a=operand(D,L,t); L.need(','); I.b=operand(D,L,t); Type* rtp; if(t->k==TY_VEC){ I.n=t->n; std::string k="<"+std::to_string(t->n)+"x"+std::to_string((u64)intT(1)); auto it=tc.cache.find(k); if(it!=tc.cache.end()) rtp=it->second; else { Type q{TY_VEC}; q.n=t->n; q.e.push_back(intT(1)); rtp=tc.fin(k,q);} } else rtp=intT(1); def(rtp); }
      else if(op=="select"){ attrs(); Type*ct=base(L); I.a=operand(D,L,ct); L.need(','); attrs(); Type*t=base(L); I.b=operand(D,L,t); L.need(','); base(L); I.c=operand(D,L,t); def(t); I.op=I_SELECT; I.n=t->slots; I.sub = (ct->k==TY_VEC); I.w=ebits(t); I.imm = t->k==TY_PTR; if(t->k==TY_STRUCT){ I.imm=2; } if(I.w>64) I.imm=2; }
      else if(ci!=cast.end()){ attrs(); Type*t=base(L); I.a=operand(D,L,t); if(!L.eatw("to")) fatal("IR cast %s",std::string(line).c_str()); Type*t2=base(L); def(t2); I.op=ci->second; I.w=ebits(t); I.w2=ebits(t2); I.n=t2->slots;
        if(op=="ptrtoint"||op=="ptrtoaddr"){ if(t2->n<64) I.op=I_TRUNC; } if(op=="inttoptr"&&t->n>64) I.op=I_TRUNC; if(op=="bitcast"){ I.imm=t->slots; if((I.w>64)||(I.w2>64)) unsup(); } 
        if(t->k==TY_F64) I.sub|=1; if(t2->k==TY_F64) I.sub|=2; }
      else if(op=="load"){ attrs(); Type*t=base(L); L.need(','); base(L); I.a=operand(D,L,ptrT()); def(t); I.op=I_LOAD; I.n=t->slots; I.w=ebits(t); if(t->slots!=1||t->k==TY_ARR||t->k==TY_STRUCT){ I.x=f->parts.size(); std::vector<MemPart> p; if(t->k==TY_VEC&&ebits(t)%8){ if(ebits(t)==1&&t->slots%8==0&&t->slots<=64) I.sub=7; else unsup(); } if(I.sub!=7) flat(t,0,p); f->parts.push_back(p); } }
      else if(op=="store"){ attrs(); Type*t=base(L); I.b=operand(D,L,t); L.need(','); base(L); I.a=operand(D,L,ptrT()); I.op=I_STORE; I.n=t->slots; I.w=ebits(t); if(t->slots!=1||t->k==TY_ARR||t->k==TY_STRUCT){ I.x=f->parts.size(); std::vector<MemPart> p; if(t->k==TY_VEC&&ebits(t)%8){ if(ebits(t)==1&&t->slots%8==0&&t->slots<=64) I.sub=7; else unsup(); } if(I.sub!=7) flat(t,0,p); f->parts.push_back(p); } }
      else if(op=="getelementptr"){ attrs(); Type*t=base(L); L.need(','); Type*bt=base(L); I.a=operand(D,L,bt); if(bt->k==TY_VEC){ unsup(); } def(bt); I.op=I_GEP; std::vector<GepIdx> ix; bool fst=true; Type*cur=t; u64 k=0;
        while(L.eat(',')){ if(L.peek()=='!') break; Type*it=base(L); u64 sc; 
          if(!fst&&cur->k==TY_STRUCT){ std::vector<u64> v; constant(L,it,v); k+=cur->offs[v[0]]; cur=cur->e[v[0]]; continue; }
          if(fst){ sc=TypeCtx::stride(t); fst=false; } else { cur=cur->e[0]; sc=TypeCtx::stride(cur); }
          Opd o=operand(D,L,it); if(o<0){ k+=sx(f->consts[~o].c,it->n)*sc; } else ix.push_back({o,(u16)it->n,sc}); }
        I.imm=k; I.x=f->geps.size(); f->geps.push_back(ix); }
      else if(op=="alloca"){ attrs(); Type*t=base(L); u64 n=1; if(L.eat(',')){ if(!L.eatw("align")){ if(L.peek()!='!'&&L.peek()!='a'){ Type*it=base(L); std::vector<u64> v; if(L.peek()=='%'){ unsup(); } else { constant(L,it,v); n=v[0]; } } } } def(ptrT()); if(I.op!=I_UNSUP) I.op=I_ALLOCA; I.imm=TypeCtx::stride(t)*n; }
      else if(op=="br"){ if(L.eatw("label")){ L.need('%'); sv t=L.name(); I.op=I_BR; fixes.push_back({(u32)f->code.size(),0,(u32)blks.size()-1,t}); } else { base(L); I.a=operand(D,L,intT(1)); L.need(','); L.eatw("label"); L.need('%'); sv t=L.name(); L.need(','); L.eatw("label"); L.need('%'); sv e=L.name(); I.op=I_CBR; fixes.push_back({(u32)f->code.size(),0,(u32)blks.size()-1,t}); fixes.push_back({(u32)f->code.size(),1,(u32)blks.size()-1,e}); } }
      else if(op=="switch"){ Type*t=base(L); I.a=operand(D,L,t); L.need(','); L.eatw("label"); L.need('%'); sv d=L.name(); L.need('['); std::vector<std::pair<u64,sv>> cs; while(!L.eat(']')){ Type*ct=base(L); std::vector<u64> v; constant(L,ct,v); L.need(','); L.eatw("label"); L.need('%'); sv tn=L.name(); cs.push_back({v[0],tn}); } I.op=I_SWITCH; I.w=t->n; I.x=f->switches.size(); f->switches.push_back({}); fixes.push_back({(u32)f->code.size(),2,(u32)blks.size()-1,d}); swfix.push_back({I.x,cs}); swblk.push_back({(u32)blks.size()-1,(u32)f->code.size()}); if(t->n>64) unsup(); }
      else if(op=="ret"){ Type*t=base(L); I.op=I_RET; I.n=t->slots; if(t->k!=TY_VOID) I.a=operand(D,L,t); }
      else if(op=="unreachable"){ I.op=I_UNREACH; }
      else if(op=="fence"){ continue; }
      else if(op=="freeze"){ Type*t=base(L); I.a=operand(D,L,t); def(t); I.op=I_COPY; I.n=t->slots; }
      else if(op=="fneg"){ attrs(); Type*t=base(L); I.a=operand(D,L,t); def(t); I.op=I_FNEG; I.sub=t->k==TY_F64; }
      else if(op=="phi"){ attrs(); Type*t=base(L); Phi p; p.dst=slotOf(D,res,t->slots); p.n=t->slots; do{ if(L.peek()!='[') break; L.need('['); Opd o=operand(D,L,t); L.need(','); L.need('%'); sv b=L.name(); L.need(']'); p.in.push_back({o,b}); }while(L.eat(',')); blks.back().phis.push_back(p); continue; }
      else if(op=="extractvalue"||op=="insertvalue"){ Type*t=base(L); I.a=operand(D,L,t); Type*et=nullptr; if(op=="insertvalue"){ L.need(','); et=base(L); I.b=operand(D,L,et); }
        u32 off=0; Type*cur=t; while(L.eat(',')){ if(L.peek()=='!') break; u32 ix=atoi(std::string(L.word()).c_str()); if(cur->k==TY_STRUCT){ for(u32 q=0;q<ix;q++) off+=cur->e[q]->slots; cur=cur->e[ix]; } else { off+=ix*cur->e[0]->slots; cur=cur->e[0]; } }
        if(op=="extractvalue"){ def(cur); I.op=I_COPY; I.n=cur->slots; I.a = I.a>=0? I.a+(i32)off : ~(i32)(~I.a+off); } else { def(t); I.op=I_INSERT; I.n=t->slots; I.w=et->slots; I.imm=off; } }
      else if(op=="extractelement"){ Type*t=base(L); I.a=operand(D,L,t); L.need(','); Type*it=base(L); I.b=operand(D,L,it); def(t->e[0]); I.op=I_EXTELT; I.w=t->e[0]->slots; I.n=t->n; I.w2=it->n; }
      else if(op=="insertelement"){ Type*t=base(L); I.a=operand(D,L,t); L.need(','); Type*et=base(L); I.b=operand(D,L,et); L.need(','); Type*it=base(L); I.c=operand(D,L,it); def(t); I.op=I_INSELT; I.n=t->n; I.w=et->slots; }
      else if(op=="shufflevector"){ Type*t=base(L); I.a=operand(D,L,t); L.need(','); base(L); I.b=operand(D,L,t); L.need(','); Type*mt=base(L); std::vector<u64> m; constant(L,mt,m); std::string k="<"+std::to_string(mt->n)+"x"+std::to_string((u64)t->e[0]); Type*r; auto it=tc.cache.find(k); if(it!=tc.cache.end()) r=it->second; else { Type q{TY_VEC}; q.n=mt->n; q.e.push_back(t->e[0]); r=tc.fin(k,q);} def(r); I.op=I_SHUFFLE; I.n=mt->n; I.w=t->n; I.x=f->shuf.size(); std::vector<u32> mm; for(u64 x:m) mm.push_back((u32)x); f->shuf.push_back(mm); }
      else if(op=="atomicrmw"){ attrs(); sv o=L.word(); base(L); I.a=operand(D,L,ptrT()); L.need(','); Type*t=base(L); I.b=operand(D,L,t); def(t); I.op=I_RMW; I.w=ebits(t); static const std::map<std::string,u8,std::less<>> m={{"xchg",0},{"add",1},{"sub",2},{"and",3},{"or",4},{"xor",5},{"umax",6},{"umin",7}}; auto it=m.find(o); if(it==m.end()) unsup(); else I.sub=it->second; }
      else if(op=="cmpxchg"){ attrs(); base(L); I.a=operand(D,L,ptrT()); L.need(','); Type*t=base(L); I.b=operand(D,L,t); L.need(','); base(L); I.c=operand(D,L,t); I.op=I_CMPXCHG; I.w=ebits(t); I.dst=slotOf(D,res,2); }
      else if(op=="call"||op=="tail"||op=="musttail"||op=="notail"||op=="invoke"){
        L.p=opstart; L.word(); if(op!="call"&&op!="invoke"){ L.word(); }
        while(!typeStart(L)){ sv w=L.word(); if(w.empty()){ if(L.peek()=='"') L.name(); else fatal("IR call: %s",std::string(line).c_str()); } if(w=="align"&&L.peek()!='(') L.word(); if(L.p<L.e&&*L.p=='(') L.balanced(); }
        Type*rt2=base(L); if(L.peek()=='(' ){ L.balanced(); }
        if(has) def(rt2); CallInfo C; C.retn=rt2->slots; C.retw=ebits(rt2); 
        if(L.peek()=='@'){ L.p++; C.name=std::string(L.name()); } else if(L.peek()=='%'){ C.indirect=true; C.fp=operand(D,L,ptrT()); } else { if(rt2->k==TY_VOID&&line.find("asm sideeffect \"\",")!=sv::npos) continue; /* black_box */ unsup(); }
        if(I.op!=I_UNSUP){
          L.need('('); bool skip=false; bool okk=true;
          if(C.name.substr(0,5)=="llvm."&&(C.name.find("lifetime")!=std::string::npos||C.name.find("noalias.scope")!=std::string::npos||C.name=="llvm.assume"||C.name.find("dbg.")!=std::string::npos||C.name.find("donothing")!=std::string::npos||C.name.find("sse2.pause")!=std::string::npos||C.name.find("pseudoprobe")!=std::string::npos||C.name.find("prefetch")!=std::string::npos)) { skip=true; }
          if(skip) continue;
          if(!L.eat(')')){ do{ Type*t=base(L); skipAttrs(L); if(t->k==TY_OTHER){ okk=false; break; } if(C.args.empty()) C.argw=ebits(t); Opd o=operand(D,L,t); C.args.push_back({o,t->slots}); } while(L.eat(',')); if(okk) L.need(')'); }
          if(!C.indirect){ auto al=aliases.find(C.name); if(al!=aliases.end()) C.name=al->second; auto it=fmap.find(C.name); C.builtin=builtinOf(C.name); if(it!=fmap.end()) C.f=it->second; if(C.builtin<0&&(!C.f||C.f->decl)){ /* unknown external: error if executed */ } }
          I.op=I_CALL; I.x=f->calls.size(); f->calls.push_back(C);
        }
        if(op=="invoke") fatal("invoke not lowered");
      }
      else { unsup(); if(has){ /* landingpad, resume ...: dst size unknown */ } if(op=="landingpad"){ // skip continuation lines
            size_t k=i; while(k<B.size()&&B.substr(k,8)=="        "){ size_t nl=B.find('\n',k); if(nl==sv::npos) nl=B.size(); k=nl+1; } i=k; } }
      f->code.push_back(I);
    }
    // labels
    for(auto&b:blks) D.labels[b.name]=&b-&blks[0];
    auto edge=[&](u32 from, sv to)->u32{
      auto it=D.labels.find(to); if(it==D.labels.end()) fatal("IR: label %s in %s",std::string(to).c_str(),f->name.c_str()); Blk& b=blks[it->second]; Edge e; e.target=b.pc; sv fn=blks[from].name;
      for(auto&p:b.phis){ bool ok=false; for(auto&in:p.in) if(in.second==fn){ e.copies.push_back({p.dst,in.first,p.n}); ok=true; break; } if(!ok) fatal("IR: phi pred %s in %s block %s",std::string(fn).c_str(),f->name.c_str(),std::string(to).c_str()); }
      f->edges.push_back(e); return f->edges.size()-1; };
    for(auto&x:fixes){ Inst& I=f->code[x.inst]; u32 e=edge(x.blk,x.target); if(x.which==0){ I.imm=(I.imm&~0xffffffffull)|e; } else if(x.which==1){ I.imm=(I.imm&0xffffffffull)|((u64)e<<32); } else { f->switches[I.x].def=e; } }
    for(size_t k=0;k<swfix.size();k++) for(auto&c:swfix[k].second) f->switches[swfix[k].first].cases.push_back({c.first,edge(swblk[k].first,c.second)});
    delete en;
  }
};
