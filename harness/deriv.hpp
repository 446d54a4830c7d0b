// deriv.hpp - reads derivations (TSTP and PCL) and checks every step by finite models
#pragma once
#include "vh.h"
#include "sem.hpp"
struct Step { string id; Form f; vector<string> par; bool leaf=false,intro=false,esa=false,cth=false,conj=false,negc=false,proof=false; string leafName; string rule; string text; bool isClause=false; };
static inline void srcWalk(const Src&s,Step&st){ switch(s.t){ case Src::FILE_: st.leaf=true; st.leafName=s.name; break; case Src::INTRO: st.intro=true; break; case Src::REF: st.par.push_back(s.name); break;
   case Src::INF: st.rule+=s.name+" "; if(s.status=="esa") st.esa=true; if(s.status=="cth") st.cth=true; for(auto&c:s.ch) srcWalk(c,st); break; default: if(s.name=="theory"||s.t==Src::NONE) break; throw ParseError("unknown source "+s.raw); } }
static inline vector<Step> readTSTP(Sig&sig,const string&txt){ vector<Step> v; for(auto&a:parseAll(sig,txt)){ Step s; s.id=a.name; s.f={a.f,a.varSort}; s.isClause=a.isClause; s.conj=a.role=="conjecture"; s.negc=a.role=="negated_conjecture"; if(a.src.t==Src::NONE) throw ParseError("step "+a.name+" has no source"); srcWalk(a.src,s); for(auto&i:a.info) if(i.find("proof")!=string::npos) s.proof=true; s.text=show(sig,*a.f); v.push_back(s); } return v; }
// PCL
static inline N pclClause(Parser&P){ P.reset(); P.L.exp("["); vector<N> lits; while(!P.L.is("]")){ bool pos; if(P.L.acc("++")) pos=true; else if(P.L.acc("--")) pos=false; else throw ParseError("literal expected at "+P.L.cur().s); N a=P.atom(); lits.push_back(pos?a:mk(NOT,{a})); P.L.acc(","); } P.L.exp("]"); return P.close(lits.empty()?mk(FLS):lits.size()==1?lits[0]:mk(OR,lits)); }
static inline void pclExpr(const string&x,size_t&i,Step&st){ while(i<x.size()&&x[i]==' ') i++; size_t b=i;
  if(i<x.size()&&(isdigit((unsigned char)x[i])||x[i]=='-')){ i++; while(i<x.size()&&(isdigit((unsigned char)x[i])||x[i]=='.')) i++; st.par.push_back(x.substr(b,i-b)); }
  else { while(i<x.size()&&(isalnum((unsigned char)x[i])||x[i]=='_')) i++; string n=x.substr(b,i-b); if(n.empty()) throw ParseError("PCL expression: "+x); 
    if(n=="initial"){ st.leaf=true; size_t e=x.rfind(')'); size_t c=x.rfind(',',e); if(e!=string::npos&&c!=string::npos){ st.leafName=x.substr(c+1,e-c-1); while(!st.leafName.empty()&&st.leafName[0]==' ') st.leafName.erase(0,1); } i=x.size(); return; }
    if(n=="introduced"){ st.intro=true; i=x.size(); return; }
    st.rule+=n+" "; if(n=="skolemize"||n=="split") st.esa=true; if(n=="assume_negation") st.cth=true;
    if(i<x.size()&&x[i]=='('){ i++; while(i<x.size()&&x[i]!=')'){ pclExpr(x,i,st); while(i<x.size()&&(x[i]==' '||x[i]==',')) i++; } i++; } }
  if(i<x.size()&&x[i]=='('){ int d=0; do { if(x[i]=='(') d++; if(x[i]==')') d--; i++; } while(d&&i<x.size()); } }
static inline vector<Step> readPCL(Sig&sig,const string&txt){ vector<Step> v; size_t p=0; while(p<txt.size()){ size_t e=txt.find('\n',p); if(e==string::npos) e=txt.size(); string l=txt.substr(p,e-p); p=e+1; size_t i=0; while(i<l.size()&&l[i]==' ') i++; if(i>=l.size()||!(isdigit((unsigned char)l[i]))) { if(i<l.size()&&l[i]!='%'&&l[i]!='#') throw ParseError("PCL line: "+l); continue; }
   Step s; size_t c=l.find(" : ",i); if(c==string::npos) throw ParseError("PCL line: "+l); s.id=l.substr(i,c-i); i=c+3; c=l.find(':',i); string ty=l.substr(i,c-i); s.conj=ty.find("conj")!=string::npos; s.negc=ty.find("neg")!=string::npos; string rest=l.substr(c+1); size_t b=0; while(b<rest.size()&&rest[b]==' ') b++; rest=rest.substr(b); c=rest.find(" : "); if(c==string::npos) throw ParseError("PCL line: "+l); string f=rest.substr(0,c), x=rest.substr(c+3); size_t nc=x.find(" : "); if(nc!=string::npos){ if(x.find("proof",nc)!=string::npos) s.proof=true; x=x.substr(0,nc); }
   Parser P(sig,f); P.pclEqual=true; if(f[0]=='['){ s.f.f=pclClause(P); s.isClause=true; } else s.f.f=P.closedFormula(); if(!P.L.end()) throw ParseError("PCL formula: "+l); s.f.vs=P.vsort; size_t j=0; pclExpr(x,j,s); s.text=l; v.push_back(s); } return v; }
// Checks; returns "" or a message, key in *key
struct DerivStats { long steps=0, checked=0, undecided=0; size_t maxText=3000; };
static inline string checkDeriv(Sig&sig,const vector<Step>&S,const map<string,Form>&inputs,const set<int>&inputSyms,int maxd,long budget,DerivStats&st,string&key){
  map<string,int> at; set<int> seen=inputSyms;
  { // introduced definitions, in an order in which each has exactly one symbol that is still undefined
    set<int> esaNew; map<string,const Step*> by; for(auto&s:S){ by[s.id]=&s; if(s.esa){ set<int> ps,mine; for(auto&q:s.par) if(by.count(q)) symsOf(*by[q]->f.f,ps); symsOf(*s.f.f,mine); for(int y:mine) if(!ps.count(y)) esaNew.insert(y); } }
    vector<const Step*> todo; for(auto&s:S) if(s.intro) todo.push_back(&s); set<int> done=inputSyms; done.insert(esaNew.begin(),esaNew.end());
    while(!todo.empty()){ bool prog=false; for(size_t i=0;i<todo.size();i++){ set<int> mine; symsOf(*todo[i]->f.f,mine); vector<int> u; for(int y:mine) if(!done.count(y)) u.push_back(y); if(u.size()!=1) continue;
        vector<char> nw(sig.syms.size(),0); nw[u[0]]=1; for(int d=1;d<=maxd;d++){ int q=expands(sig,{},{todo[i]->f},nw,d,budget); if(q==0){ key="bad-definition"; return "introduced formula "+todo[i]->text+" is not conservative"; } if(q<0) st.undecided++; else st.checked++; }
        done.insert(u[0]); todo.erase(todo.begin()+i); prog=true; break; }
      if(!prog) for(size_t i=0;i<todo.size();i++){ bool taut=true; for(int d=1;d<=maxd&&taut;d++) if(entails(sig,{},todo[i]->f,d,budget)==0) taut=false; if(!taut){ key="bad-definition"; return "introduced formula "+todo[i]->text+" does not define exactly one new symbol and is not valid"; } todo.erase(todo.begin()+i); break; } } }
  for(size_t i=0;i<S.size();i++){ const Step&s=S[i]; st.steps++; vh_tick++;
    if(at.count(s.id)&&!s.leaf){ key="duplicate-step"; return "step "+s.id+" is listed twice"; }
    set<int> mine; symsOf(*s.f.f,mine);
    if(s.leaf){ if(!s.leafName.empty()||true){ auto it=inputs.find(s.leafName); if(it==inputs.end()){ key="foreign-leaf"; return "leaf "+s.id+" names input formula '"+s.leafName+"', which does not exist"; }
        for(int d=1;d<=maxd;d++){ int a=entails(sig,{it->second},s.f,d,budget), b=entails(sig,{s.f},it->second,d,budget); if(a==0||b==0){ key="changed-leaf"; return "leaf "+s.text+" differs from the input formula "+show(sig,*it->second.f); } if(a<0||b<0) st.undecided++; else st.checked++; } } }
    else if(s.intro) {}
    else { if(s.par.empty()){ key="no-premise"; return "step "+s.text+" has neither premises nor a source"; }
      vector<Form> P; for(auto&p:s.par){ auto it=at.find(p); if(it==at.end()){ key="dangling"; return "step "+s.id+" uses "+p+", which is not listed before it: "+s.text; } P.push_back(S[it->second].f); }
      size_t tl=s.text.size(); for(auto&p:s.par) tl+=S[at[p]].text.size(); if(tl>st.maxText){ st.undecided++; at[s.id]=i; for(int y:mine) seen.insert(y); continue; }
      for(int d=1;d<=maxd;d++){ string m; int q;
        if(s.cth){ Form n={neg(P[0].f),P[0].vs}; q=entails(sig,{n},s.f,d,budget,&m); if(q==1){ q=entails(sig,{s.f},n,d,budget,&m); } }
        else if(s.esa){ vector<char> nw(sig.syms.size(),0); set<int> ps; for(auto&f:P) symsOf(*f.f,ps); for(int y:mine) if(!ps.count(y)){ if(seen.count(y)){ key="stale-symbol"; return "step "+s.text+" introduces symbol "+sig.syms[y].name+", which is not new"; } nw[y]=1; } q=expands(sig,P,{s.f},nw,d,budget); }
        else q=entails(sig,P,s.f,d,budget,&m);
        if(q==0){ key=s.cth?"bad-negation":s.esa?"bad-extension":"unsound-step"; string pr; for(auto&f:P) pr+="\n   "+show(sig,*f.f); return "step "+s.text+" ("+s.rule+") does not follow from"+pr+"\n  on a domain of size "+std::to_string(d)+": "+m; }
        if(q<0) st.undecided++; else st.checked++; } }
    for(int y:mine) seen.insert(y); at[s.id]=i; }
  return ""; }
