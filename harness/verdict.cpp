// verdict.cpp - C01/C02 on the real prover.
//  --mode cores    minimal unsatisfiable subsets of the pools (harness/cores.txt): no configuration may report saturation (C02)
//  --mode near     all maximal proper subsets of the cores (each has a finite model): no configuration may report a proof (C01)
//  --mode subsets  all subsets of up to k clauses of each pool: verdicts against finite models / complete decision, both ways
#include "pools.hpp"
static string eprover;
static string upVar(const string&c){ set<string> vs; for(size_t i=0;i<c.size();i++) if(isupper((unsigned char)c[i])) vs.insert(string(1,c[i])); if(vs.empty()) return "("+c+")"; string s="!["; bool f=true; for(auto&v:vs){ s+=(f?"":",")+v; f=false; } return s+"]:("+c+")"; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); eprover=vh_arg("--eprover"); string mode=vh_arg("--mode");
  int maxk=vh_arg("--k")?atoi(vh_arg("--k")):2; int rot=vh_arg("--rot")?atoi(vh_arg("--rot")):1; const char*only=vh_arg("--pool"); const char*onlyc=vh_arg("--cfg"); const char*climit=vh_arg("--climit")?vh_arg("--climit"):"60";
  static vector<string> keep; if(vh_arg("--cfgset")){ CFGS.clear(); static const char*G[]={"NoGrounding","PseudoVar","FirstConst","ConjMinMinFreq","ConjMaxMinFreq","ConjMinMaxFreq","ConjMaxMaxFreq","GlobalMax","GlobalMin"}; static const char*X[]={"--satcheck-proc-interval=1","--satcheck-proc-interval=1 --satcheck-normalize-const","--satcheck-proc-interval=2 --satcheck-normalize-unproc --satcheck-decision-limit=-1","--satcheck-gen-interval=5 --split-clauses=7","--satcheck-proc-interval=1 --satcheck-normalize-const --satcheck-normalize-unproc -tLPO4","--satcheck-ttinsert-interval=20 --satcheck-decision-limit=1 -WSelectNegativeLiterals"}; keep.reserve(200); for(auto g:G) for(auto x:X){ keep.push_back(string(x)+" --satcheck="+g); keep.push_back(string(g)+keep.back()); CFGS.push_back({keep.back().c_str(),keep[keep.size()-2].c_str(),false}); } }
  string file=g_scratch+"/p.p"; long runs=0,nu=0,ns=0,nn=0,sat=0,unsat=0,undet=0;
  vector<pair<int,unsigned>> probs; // pool, mask
  if(mode!="subsets"){ set<pair<int,unsigned>> S; FILE*f=fopen(vh_arg("--cores"),"r"); char nm[64]; unsigned m; char v; while(fscanf(f,"%63s %u %c",nm,&m,&v)==3){ if(v!='U') continue; int pi=-1; for(size_t i=0;i<POOLS.size();i++) if(!strcmp(POOLS[i].name,nm)) pi=i; if(pi<0||(only&&strcmp(only,nm))) continue;
      if(mode=="cores"){ if(S.insert({pi,m}).second) probs.push_back({pi,m}); } else for(int j=0;j<32;j++) if((m>>j&1)&&(m&~(1u<<j))) if(S.insert({pi,m&~(1u<<j)}).second) probs.push_back({pi,m&~(1u<<j)}); } fclose(f); }
  else for(size_t pi=0;pi<POOLS.size();pi++){ if(only&&strcmp(only,POOLS[pi].name)) continue; int M=POOLS[pi].cl.size(); for(int k=1;k<=maxk;k++){ unsigned m=(1u<<k)-1; while(m<(1u<<M)){ probs.push_back({(int)pi,m}); unsigned c=m&-m,r=m+c; m=(((r^m)>>2)/c)|r; } } }
  while(vh_next()){
    auto pm=probs[choose(probs.size())]; Pool&P=POOLS[pm.first]; vector<int> ix; for(int j=0;j<32;j++) if(pm.second>>j&1) ix.push_back(j);
    int k=ix.size(); int conj=choose(2);
    if(!vh_mine()) continue;
    long pid=pm.second%10007;
    string txt; for(int j=0;j<k;j++){ string c=P.cl[ix[j]]; if(conj&&j==k-1) txt+="fof(c"+std::to_string(j)+",conjecture,~("+upVar(c)+")).\n"; else txt+="cnf(c"+std::to_string(j)+",axiom,("+c+")).\n"; }
    writeFile(file,txt); vh_note("%s",txt.c_str());
    Sig sig; vector<Form> fs; string oracle; for(int j=0;j<k;j++) oracle+="cnf(a,axiom,("+string(P.cl[ix[j]])+")).\n";
    for(auto&a:parseAll(sig,oracle)) fs.push_back({a.f,a.varSort});
    int consts=0; bool fun=false; for(auto&s:sig.syms) if(!s.pred){ if(s.ar==0) consts++; else fun=true; }
    int model=0; string ms; bool decidedUnsat=false; int maxd=!fun?std::max(1,consts):3;
    if(mode=="cores"){ decidedUnsat=true; unsat++; }
    else { bool complete=!fun; for(int d=1;d<=maxd&&!model;d++){ int r=satisfiable(sig,fs,d,60000,&ms); if(r==1) model=d; if(r<0) complete=false; } if(model) sat++; else if(complete){ decidedUnsat=true; unsat++; } else undet++; }
    int axmodel=0; if(conj&&!model){ vector<Form> ax(fs.begin(),fs.end()-1); for(int d=1;d<=3&&!axmodel;d++) if(satisfiable(sig,ax,d,60000)==1) axmodel=d; }
    string uCfg,sCfg;
    for(size_t ci=0;ci<CFGS.size();ci++){ if(onlyc?string(onlyc)!=CFGS[ci].name:((pid+(long)ci+conj)%rot!=0)) continue;
      vector<string> a{eprover,"-s",string("-C")+climit,"--generated-limit=1500","--cpu-limit=2"}; for(auto&o:splitWs(CFGS[ci].opts)) a.push_back(o); a.push_back(file);
      Res r=runProg(a,60); runs++; vh_trans++; string st=szsLast(r.out);
      if(r.crashed()||r.timeout||(st.empty())){ vh_fail(r.crashed()?"crash":"nostatus","%s: prover %s (exit %d) under %s",P.name,r.crashed()?"crashed":r.timeout?"did not end":"gave no status",r.code(),CFGS[ci].name); continue; }
      bool U=st=="Theorem"||st=="Unsatisfiable"||st=="ContradictoryAxioms", S=st=="Satisfiable"||st=="CounterSatisfiable";
      vh_outcome(vh_hs((st+CFGS[ci].name+P.name).c_str())+k);
      if(U){ nu++; if(uCfg.empty()) uCfg=CFGS[ci].name; } else if(S){ ns++; if(sCfg.empty()) sCfg=CFGS[ci].name; } else nn++;
      if(U&&model) vh_fail("wrong-proof","status %s under [%s] but there is a model of size %d: %s",st.c_str(),CFGS[ci].opts,model,ms.c_str());
      if(st=="ContradictoryAxioms"&&axmodel) vh_fail("wrong-contradictory","axioms alone have a model of size %d but status is %s under [%s]",axmodel,st.c_str(),CFGS[ci].opts);
      if(S&&decidedUnsat) vh_fail("wrong-saturation","status %s under [%s] but the problem is unsatisfiable",st.c_str(),CFGS[ci].opts);
      if(conj?(st=="Unsatisfiable"||st=="Satisfiable"):(st=="Theorem"||st=="CounterSatisfiable"||st=="ContradictoryAxioms")) vh_fail("wrong-kind","status %s does not fit a problem %s conjecture under [%s]",st.c_str(),conj?"with":"without",CFGS[ci].opts);
    }
    vh_states++;
    if(!uCfg.empty()&&!sCfg.empty()&&!decidedUnsat&&!model) vh_fail("contradiction","[%s] reports a proof and [%s] reports saturation",uCfg.c_str(),sCfg.c_str());
    vh_sample();
  }
  vh_stat("prover_runs",runs); vh_stat("proofs",nu); vh_stat("saturations",ns); vh_stat("no_verdict",nn); vh_stat("problems_with_finite_model",sat); vh_stat("problems_known_unsat",unsat); vh_stat("problems_undetermined",undet);
  scratchDone(); return vh_done();
}
