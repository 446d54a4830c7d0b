// proofs.cpp - C03 (proof objects) and C06 (full inference protocols) on the real prover.
//  --what proof|log   --src cores|near|fof   --rot N  --n N --pats ..
#include "pools.hpp"
#include "fofgen.hpp"
#include "deriv.hpp"
static string upVar(const string&c){ set<string> vs; for(size_t i=0;i<c.size();i++) if(isupper((unsigned char)c[i])) vs.insert(string(1,c[i])); if(vs.empty()) return "("+c+")"; string s="!["; bool f=true; for(auto&v:vs){ s+=(f?"":",")+v; f=false; } return s+"]:("+c+")"; }
static vector<int> ints(const char*s){ vector<int> v; while(s&&*s){ v.push_back(strtol(s,(char**)&s,10)); if(*s==',') s++; } return v; }
static const vector<Cfg> FCFG={ {"default","",false},{"def1","--definitional-cnf=1",false},{"def1mini","--definitional-cnf=1 --miniscope-limit=0 -tLPO4",false},{"split","--split-clauses=7 --split-aggressive -tKBO6",false},{"pe","--pred-elim=true --pred-elim-max-occs=100 --pred-elim-tolerance=1000 --bce=true",false},{"auto","--auto",false} };
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string e=vh_arg("--eprover"), what=vh_arg("--what"), src=vh_arg("--src"); int rot=vh_arg("--rot")?atoi(vh_arg("--rot")):1; const char*onlyc=vh_arg("--cfg"); int n=vh_arg("--n")?atoi(vh_arg("--n")):2; auto pats=ints(vh_arg("--pats")); int nb=vh_arg("--nb")?atoi(vh_arg("--nb")):6; const char*climit=vh_arg("--climit")?vh_arg("--climit"):"60";
  string file=g_scratch+"/p.p"; long runs=0,proofs=0; DerivStats st; if(what=="log") st.maxText=500; vector<pair<int,unsigned>> probs;
  if(src!="fof"){ set<pair<int,unsigned>> S; FILE*f=fopen(vh_arg("--cores"),"r"); char nm[64]; unsigned m; char v; while(fscanf(f,"%63s %u %c",nm,&m,&v)==3){ if(v!='U') continue; int pi=-1; for(size_t i=0;i<POOLS.size();i++) if(!strcmp(POOLS[i].name,nm)) pi=i; if(pi<0) continue;
      if(src=="cores"){ if(S.insert({pi,m}).second) probs.push_back({pi,m}); } else for(int j=0;j<32;j++) if((m>>j&1)&&(m&~(1u<<j))) if(S.insert({pi,m&~(1u<<j)}).second) probs.push_back({pi,m&~(1u<<j)}); } fclose(f); }
  const vector<Cfg>&C=src=="fof"?FCFG:CFGS;
  while(vh_next()){
    vector<string> names; string txt,orc; long pid; bool hasConj=false; map<string,bool> isC;
    if(src=="fof"){ FofGen g; g.nb=nb; g.pat=pats[choose(pats.size())]; string f=g.gen(n); int k=choose(2); if(!vh_mine()) continue; pid=vh_execs;
      if(k==0) txt="fof(ax0,axiom,"+f+").\nfof(goal,conjecture,"+f+").\n"; else txt="fof(ax0,axiom,"+f+").\nfof(ax1,axiom,~("+f+")).\n"; orc=txt; hasConj=k==0; }
    else { auto pm=probs[choose(probs.size())]; Pool&P=POOLS[pm.first]; vector<int> ix; for(int j=0;j<32;j++) if(pm.second>>j&1) ix.push_back(j); int k=ix.size(); int form=choose(3); if(!vh_mine()) continue; pid=(pm.second%10007)*3+form; // 0: cnf, 1: fof, 2: fof with conjecture
      for(int j=0;j<k;j++){ string c=P.cl[ix[j]]; string nm="c"+std::to_string(j); if(form==2&&j==k-1){ txt+="fof("+nm+",conjecture,~("+upVar(c)+")).\n"; hasConj=true; } else if(form) txt+="fof("+nm+",axiom,"+upVar(c)+").\n"; else txt+="cnf("+nm+",axiom,("+c+")).\n"; } orc=txt; }
    writeFile(file,txt); vh_note("%s",txt.c_str()); vh_states++;
    for(size_t ci=0;ci<C.size();ci++){ if(onlyc?string(onlyc)!=C[ci].name:((pid+(long)ci)%rot!=0)) continue;
     for(int fmt=(what=="log"?((pid/rot)%13==3?0:1):(pid/rot)%2);;){ // 0 TSTP 1 PCL
      vector<string> a{e,string("-C")+climit,what=="log"?"--generated-limit=60":"--generated-limit=1500","--cpu-limit=2",fmt?"--pcl-out":"--tstp-out"}; if(what=="log"){ a.push_back("-l"); a.push_back("4"); } else { a.push_back("-s"); a.push_back("--proof-object"); } for(auto&o:splitWs(C[ci].opts)) a.push_back(o); a.push_back(file);
      Res r=runProg(a,60); runs++; vh_trans++; string z=szsLast(r.out); bool U=z=="Theorem"||z=="Unsatisfiable"||z=="ContradictoryAxioms";
      if(r.crashed()||r.timeout||z.empty()){ vh_fail(r.crashed()?"crash":"nostatus","prover %s under [%s]",r.crashed()?"crashed":r.timeout?"did not end":"gave no status",C[ci].opts); break; }
      if(what=="proof"&&!U) break;
      if(z=="ResourceOut"&&r.out.find("CPU time limit")!=string::npos) break;
      if(r.out.size()>400000) { st.undecided++; break; }
      string body; if(what=="proof"){ size_t b=r.out.find("SZS output start"), q=r.out.find("% SZS output end"); if(b==string::npos||q==string::npos){ vh_fail("no-proof","status %s but no proof object under [%s]",z.c_str(),C[ci].opts); break; } b=r.out.find('\n',b); body=r.out.substr(b,q-b); }
      else { size_t p=0; while(p<r.out.size()){ size_t q=r.out.find('\n',p); if(q==string::npos) q=r.out.size(); string l=r.out.substr(p,q-p); p=q+1; size_t i=0; while(i<l.size()&&l[i]==' ') i++; if(fmt?(i<l.size()&&isdigit((unsigned char)l[i])):(!l.compare(0,4,"cnf(")||!l.compare(0,4,"fof("))) body+=l+"\n"; } }
      try { Sig sig; map<string,Form> in; set<int> isy; for(auto&x:parseAll(sig,orc)) in[x.name]={x.f,x.varSort}; for(size_t i=0;i<sig.syms.size();i++) isy.insert(i);
        vector<Step> S=fmt?readPCL(sig,body):readTSTP(sig,body); proofs++; string key; string msg=checkDeriv(sig,S,in,isy,2,4000,st,key);
        if(msg.empty()&&what=="proof"){ if(S.empty()){ key="empty-proof"; msg="the proof object is empty"; } else { const Step&l=S.back(); if(!(l.f.f->k==FLS)){ key="not-closed"; msg="the last step is not the empty clause: "+l.text; }
            else { // the conjecture occurs iff the status says so
              bool usesConj=false; for(auto&s:S) if(s.leaf&&s.conj) usesConj=true; if(hasConj&&z=="Theorem"&&!usesConj){ key="status-proof"; msg="status Theorem, but the proof does not use the conjecture"; } if(z=="ContradictoryAxioms"&&usesConj){ key="status-proof"; msg="status ContradictoryAxioms, but the proof uses the conjecture"; } }
            // everything listed is used
            set<string> used; for(auto&s:S) for(auto&p:s.par) used.insert(p); for(size_t i=0;msg.empty()&&i+1<S.size();i++) if(!used.count(S[i].id)){ key="unused-step"; msg="step "+S[i].text+" is not used"; } } }
        if(what=="log"&&!fmt&&key=="dangling") key="dangling-tstp";
        if(what=="log"&&key=="dangling"){ static const char*undoc[]={"--pred-elim","--disequality-decomp","--goal-defs","--satcheck"}; for(auto u:undoc) if(strstr(C[ci].opts,u)){ key="dangling-undocumented"; static set<string> once; if(!once.insert(u).second) msg.clear(); break; } }
        if(key=="dangling-tstp"){ static int once; if(once++) msg.clear(); }
        if(!msg.empty()) vh_fail(key.c_str(),"[%s] %s\n%s",C[ci].opts,msg.c_str(),body.size()>6000?"(long)":body.c_str());
        vh_outcome(vh_hs(body.c_str()));
      } catch(ParseError&x){ vh_fail("unreadable","[%s] %s\n%s",C[ci].opts,x.what(),body.size()>6000?"(long)":body.c_str()); }
      break; } }
    vh_sample();
  }
  vh_stat("prover_runs",runs); vh_stat("derivations",proofs); vh_stat("steps",st.steps); vh_stat("semantic_checks",st.checked); vh_stat("undecided_checks",st.undecided);
  scratchDone(); return vh_done();
}
