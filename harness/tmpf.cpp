// tmpf.cpp - C32: faults and termination signals at every point of a run; temporary files.  --prog name --exe path --preload tf.so --case n
#include "pools.hpp"
#include <dirent.h>
#include <sys/stat.h>
static string TD,WD; static std::map<string,string> keep;
static string lst(const string&d){ string s; DIR*D=opendir(d.c_str()); if(!D) return "?"; std::vector<string> v; while(auto*e=readdir(D)) if(e->d_name[0]!='.') v.push_back(e->d_name); closedir(D); std::sort(v.begin(),v.end()); for(auto&x:v) s+=x+" "; return s; }
static const char*PROOF="     1 : : [++p(X1),--q(X1)] : initial(\"x\", a)\n     2 : : [++q(a)] : initial(\"x\", b)\n     3 : : [--p(a)] : initial(\"x\", c)\n     4 : : [++p(a)] : spm(1,2)\n     5 : : [] : sr(4,3) : 'proof'\n";
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string prog=vh_arg("--prog"),exe=vh_arg("--exe"); TD=g_scratch+"/tmp"; WD=g_scratch+"/w"; mkdir(TD.c_str(),0700); mkdir(WD.c_str(),0700); string cf=g_scratch+"/count"; int strideA=vh_arg("--stride")?atoi(vh_arg("--stride")):1;
  // stand-ins for the prover: success, failure, no output, crash
  static const char*PV[]={"#!/bin/sh\necho '% Pid: '$$\necho '% Proof found!'\necho '% SZS status Theorem for x'\necho '% SZS output start'\necho '% SZS output end'\n","#!/bin/sh\necho '% Pid: '$$\necho '% No proof found!'\necho '% SZS status GaveUp'\nexit 1\n","#!/bin/sh\nexit 3\n"}; vector<string> pv; for(int i=0;i<3;i++){ string f=g_scratch+"/pv"+std::to_string(i); writeFile(f,PV[i]); chmod(f.c_str(),0700); pv.push_back(f); }
  writeFile(WD+"/proof.pcl",PROOF); writeFile(WD+"/ax.p","fof(a1,axiom,![X]:(p(X)=>q(X))).\nfof(a2,axiom,p(a)).\nfof(a3,axiom,r(b)|s).\n"); writeFile(WD+"/p1.p","include('ax.p').\nfof(g,conjecture,q(a)).\n"); writeFile(WD+"/p2.p","include('ax.p').\nfof(g,conjecture,r(b)).\n");
  writeFile(WD+"/batch",string("division.category LTB.SMO\n% SZS start BatchConfiguration\nexecution.order ordered\noutput.required Assurance\noutput.desired Proof Answer\nlimit.time.problem.wc 4\nlimit.time.overall.wc 20\n% SZS end BatchConfiguration\n% SZS start BatchIncludes\ninclude('ax.p').\n% SZS end BatchIncludes\n% SZS start BatchProblems\n")+WD+"/p1.p "+WD+"/o1\n"+WD+"/p2.p "+WD+"/o2\n% SZS end BatchProblems\n");
  writeFile(TD+"/epr_keep","keep"); string fresh=lst(TD); setenv("TMPDIR",TD.c_str(),1); if(chdir(WD.c_str())) return 3; setenv("TF_PROG",prog.c_str(),1); string pre=vh_arg("--preload");
  static const char*W[]={"15","2","f","F"}; long cnt[3]={0};
  auto run=[&](int c){ vector<string> a{exe}; if(prog=="checkproof"){ a.push_back("--executable="+pv[c]); a.push_back(WD+"/proof.pcl"); } else { a.push_back("--wtc-limit=20"); a.push_back(WD+"/batch"); a.push_back(pv[c]); } setenv("LD_PRELOAD",pre.c_str(),1); Res r=runProg(a,30,true); unsetenv("LD_PRELOAD"); return r; };
  while(vh_next()){
    int c=choose(3); if(!cnt[c]){ setenv("TF_COUNT",cf.c_str(),1); Res r=run(c); unsetenv("TF_COUNT"); string b=readFile(cf); long x=0; if(b.size()>=8) memcpy(&x,b.data(),8); cnt[c]=(x+383)/256*256; if(x<=0) vh_fail("harness","no point is counted: %s",r.out.substr(0,300).c_str()); }
    int w=choose(4); long p=(long)choose((int)((cnt[c]+strideA-1)/strideA)+2)*strideA-1+(c*4+w)%strideA; if(!vh_mine()) continue; vh_states++; vh_trans++; // p=-1: undisturbed
    setenv("TF_AT",std::to_string(p).c_str(),1); setenv("TF_WHAT",W[w],1); string what=prog+" with prover stand-in "+std::to_string(c)+(w<2?", signal ":", failing call ")+W[w]+" at point "+std::to_string(p)+" of "+std::to_string(cnt[c]); vh_note("%s",what.c_str()); Res r=run(c); unsetenv("TF_AT"); unsetenv("TF_WHAT");
    if(r.timeout) vh_fail("hang","%s: the program does not end",what.c_str()); else if(r.crashed()&&!(w<2&&WTERMSIG(r.status)==atoi(W[w]))) vh_fail("crash","%s: signal %d",what.c_str(),WTERMSIG(r.status));
    string now=lst(TD); if(now!=fresh){ vh_fail(now.find("epr_keep")==string::npos?"foreign":"left","%s: left in the directory for temporary files: %s (exit code %d): %s",what.c_str(),now.c_str(),r.code(),r.out.substr(0,200).c_str()); runProg({"/bin/sh","-c","/bin/rm -f "+TD+"/epr_*"}); writeFile(TD+"/epr_keep","keep"); }
    else if(readFile(TD+"/epr_keep")!="keep"){ vh_fail("foreign","%s: a file of another program has been changed",what.c_str()); writeFile(TD+"/epr_keep","keep"); }
    if(readFile(WD+"/proof.pcl")!=PROOF) vh_fail("foreign","%s: the input has been changed",what.c_str());
    vh_outcome(vh_hs((what.substr(0,40)+std::to_string(r.code())).c_str())); vh_sample(); }
  if(chdir("/")) {} scratchDone(); return vh_done(); }
