// pre.cpp - C05: clausal preprocessing of the real prover (--cnf) against finite models and known unsatisfiable problems
//  --mode cores | near | subsets (--k) | base (fixed clauses plus k others, decided completely: function-free)
#include "pools.hpp"
static const char*PO[]={"","--bce=true --bce-max-occs=50","--pred-elim=true --pred-elim-max-occs=100 --pred-elim-tolerance=1000","--pred-elim=true --pred-elim-max-occs=100 --pred-elim-tolerance=1000 --pred-elim-recognize-gates=false","--pred-elim=true --pred-elim-max-occs=100 --pred-elim-force-mu-decrease=true --bce=true --bce-max-occs=3","--eq-unfold-limit=100 --eq-unfold-maxclauses=1000","--pred-elim=true --pred-elim-max-occs=4 --pred-elim-tolerance=2 --pred-elim-ignore-conj-syms=true --eq-unfold-limit=100","--goal-defs=All --goal-subterm-defs","--no-eq-unfolding --bce=true","--presat-simplify","--pred-elim=true --pred-elim-tolerance=0 --bce=true --goal-defs=Neg"};
static const int NPO=sizeof PO/sizeof*PO;
struct Base { const char*name; vector<const char*> base, rest; };
static vector<Base> BASES={
 {"and",{"~d(X)|p(X)","~d(X)|q(X,X)","d(X)|~p(X)|~q(X,X)"},{"d(a)","~d(a)","d(X)|p(X)","~d(X)|~p(b)","p(a)","~p(X)","q(X,X)","~q(a,X)","q(a,b)","d(X)|d(Y)","~d(X)|~d(Y)|X=Y","a=b","d(b)|q(b,a)","~q(X,Y)|d(Y)","a!=b","~d(b)|X=a|~q(X,b)"}},
 {"or",{"d(X,Y)|~p(X)","d(X,Y)|~q(X,Y)","~d(X,Y)|p(X)|q(X,Y)"},{"d(a,b)","~d(a,a)","d(X,X)","~d(X,b)|~d(b,X)","p(a)","~p(b)","q(X,a)","~q(b,X)","~d(X,Y)|d(Y,X)","d(X,Y)|X=a","~q(X,X)","~p(X)|X=b","a=b","q(b,X)|p(X)"}},
 {"dir",{"~d(X,a)|p(X)","d(b,Y)|~p(Y)"},{"d(X,X)","~d(X,X)","d(X,Y)|~d(Y,X)","~d(X,Y)|~d(Y,Z)|d(X,Z)","p(a)","~p(a)","p(b)","~p(b)","d(a,b)|r","~d(b,b)|~r","r|p(X)","X=a|X=b","~r|a=b","d(X,Y)|X=Y","~d(a,X)|~d(X,a)","a!=b|r"}},
 {"xor",{"~s|p|q","~s|~p|~q","s|~p|q","s|p|~q"},{"s","~s","p","~p","q","~q","s|t","~s|~t","t|p","~t|q","~t|~p","t|~q|~s","~p|s|t","q|~t|s"}},
 {"ite",{"~d(X)|~c(X)|p(X)","~d(X)|c(X)|q(X)","d(X)|~c(X)|~p(X)","d(X)|c(X)|~q(X)"},{"d(a)","~d(b)","c(a)","~c(a)","c(X)|c(b)","~c(X)|X=a","p(X)","~p(a)","q(b)","~q(X)","a=b","d(X)|d(a)","~d(X)|~c(X)","p(b)|~q(a)"}},
 {"trans",{"~e(X,Y)|~p(X)|p(Y)"},{"e(a,b)","e(b,c)","e(X,X)","~e(X,Y)|e(Y,X)","p(a)","~p(c)","~p(b)","e(a,X)|p(X)","~e(X,a)|~p(X)","e(X,Y)|e(Y,X)","a=c","~e(X,c)|X=b","e(b,b)|p(b)","~e(a,b)|~e(b,c)"}},
 {"eqdef",{"~d(X)|X=a","d(X)|X!=a"},{"d(b)","~d(b)","d(X)|p(X)","~d(X)|~p(X)","p(a)","~p(b)","d(X)|d(Y)","~d(X)|~d(Y)|~p(Y)","a!=b","X=a|p(X)","~d(c)|a=c","d(c)|p(c)"}},
 {"open1",{"d(X)|X!=Y","~d(X)|X=Y"},{"d(a)","~d(b)","d(X)|p(X)","~d(X)|~p(X)","p(a)","~p(b)","d(X)|d(Y)|p(X)","a!=b","~p(X)|p(b)","X=a|p(X)"}},
 {"open2",{"d(X)|q(X,Y)","~d(X)|~q(X,Y)"},{"d(a)","~d(b)","d(X)|p(X)","~d(X)|~p(X)","q(a,b)","~q(a,a)","~q(b,b)|p(b)","q(b,a)|~p(b)","a=b","q(X,a)|~q(X,b)","d(b)|~d(a)"}},
 {"open3",{"d(X)|p(X)","~d(X)|~p(Y)"},{"d(a)","~d(b)","~d(X)|~d(b)","p(a)","~p(b)","q(X,a)|~d(X)","~q(b,X)|d(X)","q(a,b)|~p(a)","a=b","d(X)|d(Y)"}},
 {"open4",{"d(X)|f(X)!=g(Y)","~d(X)|f(X)=g(Y)"},{"f(a)=g(a)","g(a)!=g(b)","f(X)=g(X)","d(a)","~d(b)","g(X)=X","f(X)!=g(b)","a!=b","d(X)|p(X)","~d(X)|~p(X)","p(b)"}},
 {"diag",{"~d(X,X)|p(X)","d(X,X)|~p(X)"},{"d(a,b)","~d(b,a)","d(X,Y)|~d(Y,X)","~d(X,Y)|~d(a,Y)","p(a)","~p(b)","p(X)|d(a,X)","~p(a)|~d(b,X)","a=b","d(X,b)|~p(X)"}},
};
static string upVar(const string&c){ set<string> vs; for(size_t i=0;i<c.size();i++) if(isupper((unsigned char)c[i])) vs.insert(string(1,c[i])); if(vs.empty()) return "("+c+")"; string s="!["; bool f=true; for(auto&v:vs){ s+=(f?"":",")+v; f=false; } return s+"]:("+c+")"; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string e=vh_arg("--eprover"), mode=vh_arg("--mode"); int K=vh_arg("--k")?atoi(vh_arg("--k")):2, rot=vh_arg("--rot")?atoi(vh_arg("--rot")):1; string file=g_scratch+"/p.p"; long runs=0,undecided=0,changed=0,knownUnsat=0,emptied=0;
  vector<pair<int,unsigned>> probs;
  if(mode=="cores"||mode=="near"){ set<pair<int,unsigned>> S; FILE*f=fopen(vh_arg("--cores"),"r"); char nm[64]; unsigned m; char v; while(fscanf(f,"%63s %u %c",nm,&m,&v)==3){ if(v!='U') continue; int pi=-1; for(size_t i=0;i<POOLS.size();i++) if(!strcmp(POOLS[i].name,nm)) pi=i; if(pi<0) continue;
      if(mode=="cores"){ if(S.insert({pi,m}).second) probs.push_back({pi,m}); } else for(int j=0;j<32;j++) if((m>>j&1)&&(m&~(1u<<j))) if(S.insert({pi,m&~(1u<<j)}).second) probs.push_back({pi,m&~(1u<<j)}); } fclose(f); }
  else for(size_t pi=0;pi<(mode=="base"?BASES.size():POOLS.size());pi++){ int M=mode=="base"?BASES[pi].rest.size():POOLS[pi].cl.size(); for(int k=mode=="base"?0:1;k<=K;k++){ if(!k){ probs.push_back({(int)pi,0}); continue; } unsigned m=(1u<<k)-1; while(m<(1u<<M)){ probs.push_back({(int)pi,m}); unsigned c=m&-m,r=m+c; m=(((r^m)>>2)/c)|r; } } }
  while(vh_next()){
    int pi=choose(probs.size()); auto pm=probs[pi]; int conj=choose(2); if(!vh_mine()) continue;
    vector<string> cl; if(mode=="base"){ for(auto c:BASES[pm.first].base) cl.push_back(c); for(int j=0;j<32;j++) if(pm.second>>j&1) cl.push_back(BASES[pm.first].rest[j]); } else for(int j=0;j<32;j++) if(pm.second>>j&1) cl.push_back(POOLS[pm.first].cl[j]);
    string txt,orc; for(size_t j=0;j<cl.size();j++){ string nm="c"+std::to_string(j); if(conj&&j+1==cl.size()) txt+="fof("+nm+",conjecture,~("+upVar(cl[j])+")).\n"; else txt+="cnf("+nm+",axiom,("+cl[j]+")).\n"; orc+="cnf(a,axiom,("+cl[j]+")).\n"; }
    writeFile(file,txt); vh_states++;
    Sig sig0; vector<Form> fs0; for(auto&a:parseAll(sig0,orc)) fs0.push_back({a.f,a.varSort}); int consts=0; bool fun=false; for(auto&s:sig0.syms) if(!s.pred){ if(!s.ar) consts++; else fun=true; }
    bool unsat=mode=="cores"; int maxd=!fun?std::max(1,consts):3; if(!unsat&&!fun){ bool comp=true,mod=false; for(int d=1;d<=maxd&&!mod;d++){ int r=satisfiable(sig0,fs0,d,100000); if(r==1) mod=true; if(r<0) comp=false; } unsat=comp&&!mod; } if(unsat) knownUnsat++;
    for(int oi=0;oi<NPO;oi++){ if((pi+oi*3+conj)%rot) continue; vh_note("%s options: %s\n",txt.c_str(),PO[oi]);
      vector<string> a{e,"--cnf","-s","--tstp-format","--cpu-limit=20"}; for(auto&o:splitWs(PO[oi])) a.push_back(o); a.push_back(file); Res r=runProg(a,60); vh_trans++; runs++;
      if(r.crashed()||r.timeout){ vh_fail("crash","preprocessing %s under [%s]",r.crashed()?"crashed":"did not end",PO[oi]); continue; }
      string st=szsLast(r.out); bool proof=st=="Unsatisfiable"||st=="Theorem"||st=="ContradictoryAxioms", closed=st=="Satisfiable"||st=="CounterSatisfiable"; /* the simplifying options can already decide the problem */ if(r.code()!=0&&!proof&&!closed){ vh_fail("fail","preprocessing ended with code %d under [%s]",r.code(),PO[oi]); continue; }
      vh_outcome(vh_hs(r.out.c_str()));
      if(proof){ int m=0; for(int d=1;d<=2&&!m;d++) if(satisfiable(sig0,fs0,d,60000)==1) m=d; if(m) vh_fail("wrong-proof","status %s under [%s] but there is a model of size %d",st.c_str(),PO[oi],m); continue; }
      if(closed&&unsat){ vh_fail("wrong-saturation","status %s under [%s] but the problem is unsatisfiable",st.c_str(),PO[oi]); continue; }
      Sig sig; vector<Form> F,C; for(auto&x:parseAll(sig,orc)) F.push_back({x.f,x.varSort}); size_t nold=sig.syms.size(); bool bad=false;
      try { for(auto&x:parseAll(sig,r.out)) C.push_back({x.f,x.varSort}); } catch(ParseError&x){ vh_fail("unreadable","clauses cannot be read: %s\n%s",x.what(),r.out.c_str()); continue; }
      if(C.size()!=F.size()) changed++; if(C.empty()) emptied++;
      vector<char> nw(sig.syms.size(),0); for(size_t i=nold;i<nw.size();i++) nw[i]=1; bool isnew=sig.syms.size()>nold;
      for(int d=1;d<=(unsat?1:2)&&!bad;d++){ string m; if(isnew){ int q=expands(sig,F,C,nw,d,20000); if(q==0){ vh_fail("adds","on a domain of size %d a model of the input cannot be extended to the result under [%s]\n%s",d,PO[oi],r.out.c_str()); bad=true; } else if(q<0) undecided++; continue; }
        for(auto&f:C){ int q=entails(sig,F,f,d,30000,&m); if(q==0){ vh_fail("adds","on a domain of size %d a clause of the result does not follow from the input under [%s]; %s\n%s",d,PO[oi],m.c_str(),r.out.c_str()); bad=true; break; } if(q<0) undecided++; } }
      if(unsat&&!bad) for(int d=1;d<=maxd;d++){ string m; int q=satisfiable(sig,C,d,100000,&m); if(q==1){ vh_fail("loses","the input is unsatisfiable but the result has a model of size %d under [%s]: %s\n%s",d,PO[oi],m.c_str(),r.out.c_str()); break; } if(q<0) undecided++; } }
    vh_sample(); }
  vh_stat("prover_runs",runs); vh_stat("results_changed",changed); vh_stat("results_empty",emptied); vh_stat("known_unsatisfiable_inputs",knownUnsat); vh_stat("undecided_checks",undecided); scratchDone(); return vh_done(); }
