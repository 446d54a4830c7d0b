// lim.cpp - C21: faults, signals and limits at every point of a run.  --exe eprover --preload det.so --mode mem|sig|limit [--stride n]
#include "pools.hpp"
struct Pb { const char*name; bool unsat; const char*txt; };
static const Pb PB[]={
 {"thm",true,"fof(a,axiom,![X]:(p(X)=>?[Y]:(q(X,Y)&p(Y)))).\nfof(b,axiom,![X,Y]:(q(X,Y)=>(r(Y)|q(Y,X)))).\nfof(c,axiom,![X]:(r(X)<=>(p(f(X))|~q(X,X)))).\nfof(d,hypothesis,p(a)|p(b)).\nfof(h,axiom,![X]:~q(X,X)).\nfof(g,conjecture,?[X]:(r(X)&p(X))).\n"},
 {"ueq",true,"cnf(a,axiom,f(f(X,Y),Z)=f(X,f(Y,Z))).\ncnf(c,axiom,f(X,X)=e).\ncnf(d,axiom,f(e,X)=X).\ncnf(d2,axiom,f(X,e)=X).\ncnf(g,negated_conjecture,f(a,b)!=f(b,a)).\n"},
 {"sat",false,"cnf(a,axiom,p(X)|q(X,Y)|r(Y)).\ncnf(b,axiom,~p(X)|~q(X,X)).\ncnf(c,axiom,~r(X)|q(X,a)|b=c).\ncnf(d,axiom,p(b)|c!=d).\ncnf(e,axiom,~q(a,b)|r(c)|~r(d)).\n"},
 {"csat",false,"fof(a,axiom,![X]:(p(X)=>?[Y]:q(X,Y))).\nfof(b,axiom,![X,Y]:(q(X,Y)=>(p(Y)|s(X)))).\nfof(c,axiom,p(a)&~s(a)).\nfof(g,conjecture,![X]:(s(X)|~p(X)|q(X,X))).\n"},
 {"inf",false,"cnf(a,axiom,lt(X,s(X))).\ncnf(b,axiom,~lt(X,Y)|~lt(Y,Z)|lt(X,Z)).\ncnf(c,axiom,~lt(X,X)).\ncnf(d,axiom,lt(f(X,Y),f(s(X),Y))|f(X,Y)=f(Y,X)).\ncnf(e,negated_conjecture,lt(a,b)|lt(b,a)).\n"},
 {"nonhorn",true,"cnf(a,axiom,p(X)|q(X)|X=a).\ncnf(b,axiom,~p(X)|f(X)=b).\ncnf(c,axiom,~q(X)|f(X)=c).\ncnf(d,axiom,f(f(X))=X).\ncnf(g,axiom,f(d)!=b).\ncnf(h,axiom,f(d)!=c).\ncnf(i,axiom,d!=a).\n"},
 {"prop",true,"fof(a,axiom,(p<=>(q|r))&(q<=>~s)).\nfof(b,axiom,(r<=>s)|(p&t)).\nfof(c,axiom,t=>~p).\nfof(g,conjecture,p&(s=>r)).\n"}};
static const char*OP[]={"","--auto","--split-clauses=7 --split-method=1 --definitional-cnf=2","--satcheck-proc-interval=1 --satcheck=ConjMinMinFreq","--proof-object","--presat-simplify --forward-context-sr --condense","--pred-elim=true --bce=true","--delete-bad-limit=200 --filter-orphans-limit=2 --forward-contract-limit=2","--proof-object=2 --pcl-out","-tLPO4 -WSelectMaxLComplexAvoidPosPred --simul-paramod"};
static const char*LM[]={"-C","-P","-U","-T","--generated-limit=","--tb-insert-limit="};
static string E,DET; 
static Res run(const Pb&p,const string&f,const string&op,const string&extra){ vector<string> a{E,"-s","--generated-limit=400"}; for(auto&w:splitWs(op)) a.push_back(w); for(auto&w:splitWs(extra)) a.push_back(w); a.push_back(f); return runProg(a,25,true); }
static bool judge(const Pb&p,const Res&r,const string&what,int sig){ string st=szsLast(r.out),first=szs(r.out); bool U=st=="Theorem"||st=="Unsatisfiable"||st=="ContradictoryAxioms",S=st=="Satisfiable"||st=="CounterSatisfiable";
  if(r.timeout){ vh_fail("hang","%s: the prover does not end",what.c_str()); return false; }
  if(r.crashed()){ if(sig&&WTERMSIG(r.status)==sig) { } else { vh_fail("crash","%s: the prover crashes (signal %d)",what.c_str(),WTERMSIG(r.status)); return false; } }
  size_t q=0; while((q=r.out.find("SZS status ",q))!=string::npos){ q+=11; string s=r.out.substr(q,r.out.find_first_of(" \n",q)-q); bool u=s=="Theorem"||s=="Unsatisfiable"||s=="ContradictoryAxioms",t=s=="Satisfiable"||s=="CounterSatisfiable"; if((u&&!p.unsat)||(t&&p.unsat)){ vh_fail("verdict","%s: status %s is wrong",what.c_str(),s.c_str()); return false; } }
  if(r.crashed()) return true; int c=r.code(); bool ok=U?c==0:S?c==1:st=="ResourceOut"?(c==2||c==8||c==9):st=="GaveUp"?(c==10||c==9):c!=0;
  if(st.empty()&&(c==0||c==1||c==2||c==8||c==9||c==10)){ vh_fail("nostatus","%s: no status is reported (exit %d): %s",what.c_str(),c,r.out.substr(0,150).c_str()); return false; }
  if(!ok&&U&&c==2&&r.out.find("Out of Memory")!=string::npos) ok=true; // memory ran out after the verdict
  if(!ok){ vh_fail("code","%s: exit code %d does not fit status %s",what.c_str(),c,st.c_str()); return false; } vh_outcome(vh_hs((st+p.name).c_str())*31+c); return true; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); E=vh_arg("--exe"); DET=vh_arg("--preload"); string mode=vh_arg("--mode"); long stride=vh_arg("--stride")?atol(vh_arg("--stride")):1; int np=sizeof PB/sizeof*PB,no=sizeof OP/sizeof*OP; vector<vector<long>> cnt(np,vector<long>(no,0)); vector<string> files; string cf=g_scratch+"/count";
  for(int i=0;i<np;i++){ string f=g_scratch+"/"+PB[i].name+".p"; string t=PB[i].txt; writeFile(f,t); files.push_back(f); }
  setenv("LD_PRELOAD",DET.c_str(),1);
  while(vh_next()){
    int p=choose(np),o=choose(no);
    if(mode=="limit"){ int l=choose(sizeof LM/sizeof*LM); int N=l==5?60:40; int n=choose(N); if(!vh_mine()) continue; long v=l==5?n*97:l==4?n*5:n; string x=string(LM[l])+(l<4?std::to_string(v):std::to_string(v)); string what=string(PB[p].name)+" "+OP[o]+" "+x; vh_note("%s",what.c_str()); vh_states++; vh_trans++; judge(PB[p],run(PB[p],files[p],OP[o],x),what,0); vh_sample(); continue; }
    if(!cnt[p][o]){ setenv("VERIF_COUNT",cf.c_str(),1); run(PB[p],files[p],OP[o],""); unsetenv("VERIF_COUNT"); string b=readFile(cf); long x=0; if(b.size()>=8) memcpy(&x,b.data(),8); cnt[p][o]=x>0?x:1; }
    long n=choose((cnt[p][o]+stride-1)/stride)*stride+((p*7+o*3)%stride); int k=choose(mode=="mem"?2:4); if(!vh_mine()) continue; string what=string(PB[p].name)+" "+OP[o]; vh_states++; vh_trans++;
    if(mode=="mem"){ string v=std::to_string(n)+(k?"+":""); what+=" allocation "+v+" fails"; setenv("VERIF_FAIL",v.c_str(),1); vh_note("%s",what.c_str()); Res r=run(PB[p],files[p],OP[o],""); unsetenv("VERIF_FAIL"); judge(PB[p],r,what,0); }
    else { static const int SG[]={24,24,15,2}; string v=std::to_string(n)+":"+std::to_string(SG[k]); string x=k==1?"--soft-cpu-limit=1000 --cpu-limit=2000":""; what+=" signal "+std::to_string(SG[k])+" at allocation "+std::to_string(n)+" "+x; setenv("VERIF_SIG",v.c_str(),1); vh_note("%s",what.c_str()); Res r=run(PB[p],files[p],OP[o],x); unsetenv("VERIF_SIG"); judge(PB[p],r,what,k<2?0:SG[k]); }
    vh_sample(); }
  scratchDone(); return vh_done(); }
