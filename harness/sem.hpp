// sem.hpp - independent first-order reader and finite-model semantics, used as oracle for the real
// binaries.  Nothing here uses E's code.  Interpretations are explored exhaustively per domain size:
// cells of the function/predicate tables are assigned lazily, with three-valued evaluation.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cctype>
#include <stdexcept>
using std::string; using std::vector; using std::map; using std::set; using std::pair;

struct ParseError : std::runtime_error { using runtime_error::runtime_error; };

enum K { VAR, FUN, ATOM, EQ, TRU, FLS, NOT, AND, OR, IMP, IFF, XOR, ALL, EX };
struct Node; typedef std::shared_ptr<Node> N;
struct Node { K k; int s=-1; vector<N> c; vector<int> vs; };   // s: symbol or variable index; vs: quantified vars
struct Sym { string name; int ar; bool pred; int rs; vector<int> as; bool declared=false; };
struct Sig {
  vector<Sym> syms; map<string,int> idx; vector<string> sorts{"$i"}; map<string,int> sidx{{"$i",0}};
  int sort(const string&n){ auto it=sidx.find(n); if(it!=sidx.end()) return it->second; sorts.push_back(n); return sidx[n]=sorts.size()-1; }
  int get(const string&n,int ar,bool pred){ string k=n+"/"+std::to_string(ar)+(pred?"p":"f");
    auto it=idx.find(k); if(it!=idx.end()) return it->second;
    Sym s; s.name=n; s.ar=ar; s.pred=pred; s.rs=0; s.as.assign(ar,0);
    auto d=decl.find(n); if(d!=decl.end() && (int)d->second.as.size()==ar){ s.as=d->second.as; s.rs=d->second.rs; s.declared=true; }
    syms.push_back(s); return idx[k]=syms.size()-1; }
  map<string,Sym> decl;
};
static inline N mk(K k,vector<N> c={},int s=-1){ auto n=std::make_shared<Node>(); n->k=k; n->c=std::move(c); n->s=s; return n; }

struct Tok { int t; string s; };   // t: 'l' lower, 'u' upper, 'q' quoted, 'd' distinct, 'n' number, '$' dollar, 'p' punct, 0 end
struct Lexer {
  const char*p; vector<Tok> t; size_t i=0;
  Lexer(const string&txt){ lex(txt); }
  void lex(const string&txt){
    size_t n=txt.size(), j=0;
    auto idc=[&](char c){return isalnum((unsigned char)c)||c=='_';};
    while(j<n){ char c=txt[j];
      if(isspace((unsigned char)c)){j++;continue;}
      if(c=='%'||c=='#'){ while(j<n&&txt[j]!='\n') j++; continue; }
      if(c=='/'&&j+1<n&&txt[j+1]=='*'){ j+=2; while(j+1<n&&!(txt[j]=='*'&&txt[j+1]=='/')) j++; j+=2; continue; }
      size_t b=j;
      if(isalpha((unsigned char)c)||c=='_'){ while(j<n&&idc(txt[j])) j++; string s=txt.substr(b,j-b);
        t.push_back({(isupper((unsigned char)c)||c=='_')?'u':'l',s}); continue; }
      if(c=='$'){ j++; while(j<n&&(idc(txt[j])||txt[j]=='$')) j++; t.push_back({'$',txt.substr(b,j-b)}); continue; }
      if(c=='\''||c=='"'){ j++; while(j<n&&txt[j]!=c){ if(txt[j]=='\\') j++; j++; } j++; if(j>n) throw ParseError("unterminated quote");
        string s=txt.substr(b,j-b);
        if(c=='\''){ // 'abc' is the same symbol as abc when abc is a plain lower word
          string in=s.substr(1,s.size()-2); bool plain=!in.empty()&&islower((unsigned char)in[0]); for(char d:in) if(!idc(d)) plain=false;
          t.push_back({'q',plain?in:s}); }
        else t.push_back({'d',s}); continue; }
      if(isdigit((unsigned char)c)||((c=='-'||c=='+')&&j+1<n&&isdigit((unsigned char)txt[j+1]))){ j++; while(j<n&&(isalnum((unsigned char)txt[j])||txt[j]=='/'||(txt[j]=='.'&&j+1<n&&isdigit((unsigned char)txt[j+1]))||((txt[j]=='-'||txt[j]=='+')&&(txt[j-1]=='e'||txt[j-1]=='E')))) j++;
        t.push_back({'n',txt.substr(b,j-b)}); continue; }
      static const char*ps[]={"<=>","<~>","=>","<=","~|","~&","!=","!!","??","++","--","@+","@-","!>","?*",":=",0};
      bool f=false; for(int k=0;ps[k];k++){ size_t l=strlen(ps[k]); if(txt.compare(j,l,ps[k])==0){ t.push_back({'p',ps[k]}); j+=l; f=true; break; } }
      if(f) continue;
      t.push_back({'p',string(1,c)}); j++;
    }
    t.push_back({0,""});
  }
  const Tok&cur(){ return t[i]; }
  bool is(const char*s){ return t[i].t=='p'&&t[i].s==s; }
  bool isAt(size_t o,const char*s){ return i+o<t.size()&&t[i+o].t=='p'&&t[i+o].s==s; }
  bool acc(const char*s){ if(is(s)){i++;return true;} return false; }
  void exp(const char*s){ if(!acc(s)) throw ParseError(string("expected ")+s+" got '"+t[i].s+"'"); }
  bool end(){ return t[i].t==0; }
};

struct Src { // parsed source annotation
  enum T { NONE, FILE_, INF, INTRO, REF, OTHER } t=NONE; string name; string status; vector<Src> ch; string raw; string extra;
};
struct Ann { string lang,name,role; N f; bool isClause=false; Src src; vector<string> info; size_t bvars=0; vector<int> varSort; };

struct Parser {
  Sig&sig; Lexer L; vector<pair<string,int>> scope; vector<int>* varSort; int nv=0; bool allowFree=true; vector<int> freeVars;
  vector<int> vsort; // sort per variable index of the current formula
  Parser(Sig&s,const string&txt):sig(s),L(txt){}
  int var(const string&n){ for(int i=(int)scope.size()-1;i>=0;i--) if(scope[i].first==n) return scope[i].second;
    // free variable: universally closed
    int v=nv++; vsort.push_back(0); scope.insert(scope.begin(),{n,v}); freeVars.push_back(v); return v; }
  N term(){ Tok k=L.cur();
    if(k.t=='u'){ L.i++; return mk(VAR,{},var(k.s)); }
    if(k.t=='l'||k.t=='q'||k.t=='d'||k.t=='n'||k.t=='$'){ L.i++; vector<N> a; args(a); return mk(FUN,a,sig.get(k.s,a.size(),false)); }
    if(L.acc("(")){ N r=term(); L.exp(")"); return r; }
    throw ParseError("term expected at '"+k.s+"'"); }
  void args(vector<N>&a){ if(L.acc("(")){ do a.push_back(term()); while(L.acc(",")); L.exp(")"); } }
  N atom(){ Tok k=L.cur();
    if(k.t=='$'&&(k.s=="$true"||k.s=="$false")&&!L.isAt(1,"=")&&!L.isAt(1,"!=")){ L.i++; return mk(k.s=="$true"?TRU:FLS); }
    if(k.t=='u'){ N l=term(); return eqrest(l,true); }
    if(k.t=='l'||k.t=='q'||k.t=='d'||k.t=='n'||k.t=='$'){ L.i++; vector<N> a; args(a);
      if(L.is("=")||L.is("!=")){ N l=mk(FUN,a,sig.get(k.s,a.size(),false)); return eqrest(l,true); }
      if(k.s=="$equal"||(k.s=="equal"&&a.size()==2&&pclEqual)) return mk(EQ,a);
      return mk(ATOM,a,sig.get(k.s,a.size(),true)); }
    throw ParseError("atom expected at '"+k.s+"'"); }
  bool pclEqual=false;
  N eqrest(N l,bool must){ if(L.acc("=")){ N r=term(); return mk(EQ,{l,r}); } if(L.acc("!=")){ N r=term(); return mk(NOT,{mk(EQ,{l,r})}); }
    if(must) throw ParseError("= expected"); return l; }
  N unitary(){
    if(L.is("!")||L.is("?")){ K q=L.is("!")?ALL:EX; L.i++; L.exp("["); auto n=std::make_shared<Node>(); n->k=q; size_t base=scope.size(); size_t fb=freeVars.size(); (void)fb;
      vector<pair<string,int>> nb;
      do { Tok k=L.cur(); if(k.t!='u') throw ParseError("variable expected"); L.i++; int v=nv++; vsort.push_back(0);
        if(L.acc(":")) vsort[v]=sort();
        nb.push_back({k.s,v}); n->vs.push_back(v); } while(L.acc(","));
      L.exp("]"); L.exp(":"); (void)base;
      for(auto&x:nb) scope.push_back(x);
      N b=unitary(); n->c={b}; for(size_t i=0;i<nb.size();i++) scope.pop_back(); return n; }
    if(L.acc("~")) { N x=unitary(); return mk(NOT,{x}); }
    if(L.is("(")){ // parenthesised formula, or a term in parentheses (not generated)
      L.i++; N r=formula(); L.exp(")"); return r; }
    return atom(); }
  int sort(){ Tok k=L.cur(); if(k.t!='l'&&k.t!='$'&&k.t!='q') throw ParseError("sort expected"); L.i++; return sig.sort(k.s); }
  N formula(){ N l=unitary();
    if(L.is("&")){ vector<N> v{l}; while(L.acc("&")) v.push_back(unitary()); return mk(AND,v); }
    if(L.is("|")){ vector<N> v{l}; while(L.acc("|")) v.push_back(unitary()); return mk(OR,v); }
    if(L.acc("=>")){ N r=unitary(); return mk(IMP,{l,r}); }
    if(L.acc("<=")){ N r=unitary(); return mk(IMP,{r,l}); }
    if(L.acc("<=>")){ N r=unitary(); return mk(IFF,{l,r}); }
    if(L.acc("<~>")){ N r=unitary(); return mk(XOR,{l,r}); }
    if(L.acc("~|")){ N r=unitary(); return mk(NOT,{mk(OR,{l,r})}); }
    if(L.acc("~&")){ N r=unitary(); return mk(NOT,{mk(AND,{l,r})}); }
    return l; }
  void reset(){ scope.clear(); nv=0; freeVars.clear(); vsort.clear(); }
  N close(N f){ if(freeVars.empty()) return f; auto n=std::make_shared<Node>(); n->k=ALL; n->vs=freeVars; n->c={f}; return n; }
  N closedFormula(){ reset(); N f=formula(); return close(f); }
  // general term as raw text (balanced)
  Src source(){ Src s; size_t b=L.i; Tok k=L.cur();
    auto rawTo=[&](size_t e){ string r; for(size_t j=b;j<e;j++) r+=L.t[j].s; return r; };
    if(k.t=='l'&&k.s=="inference"&&L.isAt(1,"(")){ L.i+=2; s.t=Src::INF; s.name=L.cur().s; L.i++; L.exp(","); L.exp("[");
      while(!L.is("]")){ if(L.cur().s=="status"&&L.isAt(1,"(")){ s.status=L.t[L.i+2].s; } skipOne(); L.acc(","); }
      L.exp("]"); L.exp(","); L.exp("[");
      while(!L.is("]")){ s.ch.push_back(source()); if(L.acc(":")) { size_t q=L.i; skipOne(); for(size_t j=q;j<L.i;j++) s.extra+=L.t[j].s; } L.acc(","); }
      L.exp("]"); L.exp(")"); s.raw=rawTo(L.i); return s; }
    if(k.t=='l'&&k.s=="file"&&L.isAt(1,"(")){ s.t=Src::FILE_; L.i+=2; s.extra=L.cur().s; skipOne(); if(L.acc(",")){ s.name=L.cur().s; skipOne(); } L.exp(")"); s.raw=rawTo(L.i); return s; }
    if(k.t=='l'&&k.s=="introduced"&&L.isAt(1,"(")){ s.t=Src::INTRO; s.name=L.t[L.i+2].s; skipOne(); s.raw=rawTo(L.i); return s; }
    if((k.t=='l'||k.t=='q'||k.t=='n')&&!L.isAt(1,"(")){ s.t=Src::REF; s.name=k.s; L.i++;
      if(k.t=='l'&&L.cur().t=='n'&&L.cur().s[0]=='-'){ s.name+=L.cur().s; L.i++; } // c_0_-92...
      s.raw=rawTo(L.i); return s; }
    s.t=Src::OTHER; s.name=k.s; skipOne(); s.raw=rawTo(L.i); return s; }
  void skipOne(){ int d=0; do { if(L.end()) throw ParseError("eof in annotation"); if(L.is("(")||L.is("[")) d++; else if(L.is(")")||L.is("]")) d--; L.i++; if(d==0&&(L.is("(")||L.is("["))&&(L.t[L.i-1].t!='p')) continue; if(d==0) break; } while(1); }
  // one annotated formula; false at end
  bool annotated(Ann&a){ if(L.end()) return false; Tok k=L.cur();
    if(k.t!='l'||(k.s!="fof"&&k.s!="cnf"&&k.s!="tff"&&k.s!="tcf")) throw ParseError("annotated formula expected at '"+k.s+"'");
    a=Ann(); a.lang=k.s; L.i++; L.exp("("); a.name=L.cur().s; L.i++; if(L.cur().t=='n'&&L.cur().s[0]=='-'){ a.name+=L.cur().s; L.i++; } L.exp(","); a.role=L.cur().s; L.i++; L.exp(",");
    if(a.role=="type"){ bool par=false; while(L.acc("(")) par=true; (void)par; string n=L.cur().s; L.i++; L.exp(":"); Sym s; s.name=n; s.ar=0; s.pred=false; s.rs=0;
      vector<int> as; bool p2=L.acc("("); do { as.push_back(sort()); } while(L.acc("*")); if(p2) L.acc(")");
      if(L.acc(">")){ s.as=as; s.rs=sort(); s.ar=as.size(); } else { s.rs=as[0]; s.ar=0; }
      while(L.acc(")")&&!L.is(".")) ; if(!L.is(".")) { while(!L.is(".")) L.i++; }
      if(sig.sorts[s.rs]=="$tType"){ sig.sort(n); } else { s.pred=sig.sorts[s.rs]=="$o"; sig.decl[n]=s; }
      L.exp("."); return true; }
    a.f=closedFormula(); a.isClause=(a.lang=="cnf"||a.lang=="tcf"); a.varSort=vsort;
    if(L.acc(",")){ a.src=source(); if(L.acc(",")){ if(L.acc("[")){ while(!L.is("]")){ size_t q=L.i; skipOne(); string r; for(size_t j=q;j<L.i;j++) r+=L.t[j].s; a.info.push_back(r); L.acc(","); } L.exp("]"); } } }
    L.exp(")"); L.exp("."); return true; }
};
static inline vector<Ann> parseAll(Sig&sig,const string&txt){ Parser p(sig,txt); vector<Ann> v; Ann a; while(p.annotated(a)) if(a.f) v.push_back(a); return v; }

// Sorts: infer the sort of each variable/term is the generator's business; vsort is stored on quantifier nodes
// through sortOf below (single-sorted problems use sort 0 everywhere).

struct Interp {
  Sig*sig; vector<int> size;             // per sort
  vector<int> base; vector<int8_t> val; vector<vector<int>> cellArgs; vector<int> cellSym; int ncell=0;
  void init(Sig&s,const vector<int>&sz){ sig=&s; size=sz; size.resize(s.sorts.size(),sz.empty()?1:sz[0]); base.clear(); cellSym.clear(); ncell=0;
    for(auto&y:s.syms){ base.push_back(ncell); int n=1; for(int a:y.as) n*=size[a]; for(int j=0;j<n;j++) cellSym.push_back(base.size()-1); ncell+=n; }
    val.assign(ncell,-1); }
};

struct Finder {
  Interp I; int env[256]; int pend; long nodes=0, budget=200000; bool over=false;
  vector<char> usedNew; const vector<char>*isNew=nullptr; bool needOld=false; int needCell=-1;
  vector<int>*vs=nullptr;
  int cellOf(const Node&n,int*vals){ const Sym&y=I.sig->syms[n.s]; int o=0; for(int j=0;j<y.ar;j++) o=o*I.size[y.as[j]]+vals[j]; return I.base[n.s]+o; }
  int ev(const Node&n){ // term value or -1
    if(n.k==VAR) return env[n.s];
    int v[16]; bool unk=false; for(size_t j=0;j<n.c.size();j++){ v[j]=ev(*n.c[j]); if(v[j]<0) unk=true; }
    if(unk) return -1;
    int c=cellOf(n,v); int r=I.val[c]; if(r<0&&pend<0) pend=c; return r; }
  int ef(const Node&n){
    switch(n.k){
      case TRU: return 1; case FLS: return 0;
      case EQ: { // syntactically identical sides need no value
        int a=ev(*n.c[0]); int b=ev(*n.c[1]); if(a<0||b<0) return -1; return a==b; }
      case ATOM: { int v[16]; bool unk=false; for(size_t j=0;j<n.c.size();j++){ v[j]=ev(*n.c[j]); if(v[j]<0) unk=true; } if(unk) return -1;
        int c=cellOf(n,v); int r=I.val[c]; if(r<0&&pend<0) pend=c; return r; }
      case NOT: { int a=ef(*n.c[0]); return a<0?-1:!a; }
      case AND: { bool u=false; for(auto&x:n.c){ int a=ef(*x); if(a==0) return 0; if(a<0) u=true; } return u?-1:1; }
      case OR: { bool u=false; for(auto&x:n.c){ int a=ef(*x); if(a==1) return 1; if(a<0) u=true; } return u?-1:0; }
      case IMP: { int a=ef(*n.c[0]); if(a==0) return 1; int b=ef(*n.c[1]); if(b==1) return 1; if(a<0||b<0) return -1; return 0; }
      case IFF: case XOR: { int a=ef(*n.c[0]); int b=ef(*n.c[1]); if(a<0||b<0) return -1; return (a==b)==(n.k==IFF); }
      case ALL: case EX: return quant(n,0);
      default: throw std::runtime_error("term as formula"); } }
  int quant(const Node&n,size_t i){ if(i==n.vs.size()) return ef(*n.c[0]); bool u=false; int sz=I.size[vs&&n.vs[i]<(int)vs->size()?(*vs)[n.vs[i]]:0];
    for(int d=0;d<sz;d++){ env[n.vs[i]]=d; int r=quant(n,i+1); if(n.k==ALL?r==0:r==1) return r; if(r<0) u=true; }
    return u?-1:(n.k==ALL?1:0); }
  struct Fm { N f; vector<int>*vs; };
  // evaluate conjunction; returns 1/0/-1 with pend set
  int evAll(const vector<Fm>&fs){ int cell=-1; bool u=false; for(auto&f:fs){ pend=-1; vs=f.vs; int r=ef(*f.f); if(r==0) return 0; if(r<0){ u=true; if(cell<0) cell=pend; } } pend=cell; return u?-1:1; }
  int dom(int cell){ const Sym&y=I.sig->syms[I.cellSym[cell]]; return y.pred?2:I.size[y.rs]; }
  bool lnh=true; // least number heuristic: only sound when all sorts are one and no cell is preassigned
  int mentioned(int cell){ int m=-1; const Sym&y=I.sig->syms[I.cellSym[cell]]; int o=cell-I.base[I.cellSym[cell]]; for(int j=y.ar-1;j>=0;j--){ m=std::max(m,o%I.size[y.as[j]]); o/=I.size[y.as[j]]; } return m; }
  int mdn=-1;
  // exists completion making all true?  1 yes (I.val is a partial model), 0 no, -1 budget exhausted
  int sat(const vector<Fm>&fs){ if(++nodes>budget){ over=true; return -1; }
    int r=evAll(fs); if(r==0) return 0; if(r==1) return 1;
    int c=pend; if(isNew&&!(*isNew)[I.cellSym[c]]){ needCell=c; return 2; }
    int D=dom(c); bool pr=I.sig->syms[I.cellSym[c]].pred; int old=mdn; int m=std::max(mdn,lnh?mentioned(c):0); bool ex=false;
    for(int v=0;v<D;v++){ if(!pr&&lnh&&v>m+1) break; I.val[c]=v; mdn=pr?m:std::max(m,v); int q=sat(fs); if(q==1||q==2){ if(q==2) I.val[c]=-1; mdn=old; return q; } if(q<0) ex=true; if(q<0&&over) break; }
    I.val[c]=-1; mdn=old; return ex?-1:0; }
};
static inline N neg(N f){ return mk(NOT,{f}); }
struct Form { N f; vector<int> vs; };
// is there an interpretation with the given domain size satisfying all?  1/0/-1
static inline int satisfiable(Sig&sig,const vector<Form>&fs,int d,long budget=200000,string*model=nullptr){
  Finder F; F.I.init(sig,vector<int>(sig.sorts.size(),d)); F.budget=budget; F.lnh=sig.sorts.size()==1; vector<Finder::Fm> v; vector<vector<int>> keep; keep.reserve(fs.size());
  for(auto&f:fs){ keep.push_back(f.vs); } for(size_t i=0;i<fs.size();i++) v.push_back({fs[i].f,&keep[i]});
  int r=F.sat(v);
  if(r==1&&model){ string s; for(int c=0;c<F.I.ncell;c++) if(F.I.val[c]>=0){ const Sym&y=sig.syms[F.I.cellSym[c]]; int o=c-F.I.base[F.I.cellSym[c]]; string a; for(int j=y.ar-1;j>=0;j--){ a=std::to_string(o%F.I.size[y.as[j]])+(a.empty()?"":","+a); o/=F.I.size[y.as[j]]; } s+=y.name+(y.ar?"("+a+")":"")+"="+std::to_string(F.I.val[c])+" "; } *model=s; }
  return r; }
// same with separate sizes per sort
static inline int satisfiableSz(Sig&sig,const vector<Form>&fs,const vector<int>&sz,long budget=200000){
  Finder F; F.I.init(sig,sz); F.budget=budget; F.lnh=sig.sorts.size()==1; vector<Finder::Fm> v; vector<vector<int>> keep; keep.reserve(fs.size());
  for(auto&f:fs) keep.push_back(f.vs);
  for(size_t i=0;i<fs.size();i++) v.push_back({fs[i].f,&keep[i]});
  return F.sat(v); }
// premises |= conclusion on domain size d?  1 yes, 0 countermodel, -1 budget
static inline int entails(Sig&sig,vector<Form> prem,Form concl,int d,long budget=200000,string*model=nullptr){
  prem.push_back({neg(concl.f),concl.vs}); int r=satisfiable(sig,prem,d,budget,model); return r<0?-1:!r; }
// for every interpretation of the old symbols making prem true there is an expansion to the new symbols making concl true
struct ForallExists {
  Sig&sig; vector<Finder::Fm> P,C; vector<vector<int>> keep; vector<char> isNew; Finder F; long budget; long nodes=0;
  ForallExists(Sig&s,const vector<Form>&p,const vector<Form>&c,const vector<char>&nw,int d,long b):sig(s),isNew(nw),budget(b){ keep.reserve(p.size()+c.size());
    for(auto&f:p){ keep.push_back(f.vs); P.push_back({f.f,&keep.back()}); } for(auto&f:c){ keep.push_back(f.vs); C.push_back({f.f,&keep.back()}); }
    F.I.init(sig,vector<int>(sig.sorts.size(),d)); F.lnh=false; F.budget=b; }
  int go(){ if(++nodes>budget) return -1; F.isNew=nullptr; int r=F.evAll(P); if(r==0) return 1; int cell=-1;
    if(r<0) cell=F.pend; else { vector<int8_t> sv=F.I.val; F.isNew=&isNew; F.nodes=0; F.over=false; int q=F.sat(C); F.I.val=sv; if(q==1) return 1; if(q==0) return 0; if(q<0) return -1; cell=F.needCell; }
    int D=F.dom(cell); bool ex=false; for(int v=0;v<D;v++){ F.I.val[cell]=v; int q=go(); if(q==0){ return 0; } if(q<0){ ex=true; break; } } F.I.val[cell]=-1; return ex?-1:1; }
};
static inline int expands(Sig&sig,const vector<Form>&prem,const vector<Form>&concl,const vector<char>&isNew,int d,long budget=50000){ ForallExists f(sig,prem,concl,isNew,d,budget); return f.go(); }
static inline void symsOf(const Node&n,set<int>&o){ if(n.k==FUN||n.k==ATOM) o.insert(n.s); for(auto&c:n.c) symsOf(*c,o); }
static inline string show(Sig&sig,const Node&n){
  auto lst=[&](const char*sep){ string s; for(size_t i=0;i<n.c.size();i++) s+=(i?sep:"")+show(sig,*n.c[i]); return s; };
  switch(n.k){ case VAR: return "V"+std::to_string(n.s); case FUN: case ATOM: return sig.syms[n.s].name+(n.c.empty()?"":"("+lst(",")+")");
    case EQ: return "("+lst("=")+")"; case TRU: return "$true"; case FLS: return "$false"; case NOT: return "~"+lst(""); case AND: return "("+lst("&")+")"; case OR: return "("+lst("|")+")";
    case IMP: return "("+lst("=>")+")"; case IFF: return "("+lst("<=>")+")"; case XOR: return "("+lst("<~>")+")";
    case ALL: case EX: { string s=n.k==ALL?"![":"?["; for(size_t i=0;i<n.vs.size();i++) s+=(i?",V":"V")+std::to_string(n.vs[i]); return s+"]:"+lst(""); } }
  return "?"; }
