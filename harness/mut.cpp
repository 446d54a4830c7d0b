// mut.cpp - C17: every truncation, deletion, replacement, duplication and exchange of bytes of a set of base inputs, given to the real programs (address checker build).
//  --dir PROVER dir with the programs   --set i,j..  base inputs   --kinds i,j..  mutations   --rep N  number of replacement characters
#include "cli.hpp"
struct Base { const char*prog; const char*opts; const char*text; int lang; };   // lang 0: TSTP-like (brackets judged), 1: other; opts: @ = file name, & = the text itself
static const Base B[]={
 {"eprover","-s --tstp-format --processed-clauses-limit=40 @","fof(a,axiom,![X]:(p(X,'q r')=>?[Y]:~(X=f(Y)))).\ncnf(b,negated_conjecture,(~p(a,\"d\")|X!=g(X))).\n",0},
 {"eprover","-s --auto --tstp-format --processed-clauses-limit=40 @","tff(t,type,s:$tType).\ntff(f,type,f:(s*$i)>$o).\ntff(c,axiom,![A:s,B]:(f(A,B)<~>$true),file('x',y),[z]).\n",0},
 {"eprover","-s --lop-in --processed-clauses-limit=40 @","p(X,a);X=b<-q(f(X)),~r.\n?-p(a,b),equal(a,c).\nq(a).\n",1},
 {"eprover","-s --tptp-in --processed-clauses-limit=40 @","input_formula(a,axiom,(![X]:(p(X)<=>equal(X,a)))).\ninput_clause(b,conjecture,[--p(X),++q(X,b)]).\n",1},
 {"eprover","-s --tstp-format --processed-clauses-limit=40 @","fof(1,question,p(1/2,-3.5E+2,7)&\"o\"!=\"u\").\nfof('n 2',hypothesis,$distinct(a,b,c)).\n/* c */ % d\nfof(z,lemma,(r|~s|$false)).\n",0},
 {"epclextract","-s @","1 : : [++p(X),--q] : initial(\"f\",a)\n2 : neg,lemma : [--p(a)] : initial\n3 : : [--q] : pm(1,2)\n4 : : (p(a)|~q) : 3 : 'proof'\n",1},
 {"e_axfilter","-s --tstp-format --filter=@ @2","a = GSinE(CountTerms,hypos,1.5,,3,100,1.0)\nThreshold(200)\n",1},
 {"eprover","-s --tstp-format --definitional-cnf=3 --processed-clauses-limit=40 --watchlist=@ @2","cnf(w1,axiom,(p(X)|~q(a))).\ncnf(w2,watchlist,(q(b))).\n",1},
 {"eprover","-s --tstp-format --processed-clauses-limit=40 -H& @2","(2*Clauseweight(ConstPrio,1,1,1),1*FIFOWeight(PreferGoals))",2},
 {"eprover","-s --tstp-format --processed-clauses-limit=40 -tKBO6 --order-weights=& @2","p:1,f:2,a:3",2},
 {"eprover","-s --tstp-format --processed-clauses-limit=40 -tLPO4 --precedence=& @2","f>a,p>q",2},
 {"eprover","-s --tstp-format --processed-clauses-limit=40 --parse-strategy=@ @2",0,1},
 {"eground","-s --tstp-format @","cnf(a,axiom,(p(X)|~q(a,X))).\ncnf(b,axiom,(q(X,b)|X=X)).\n",0},
 {"checkproof","-s @","1 : : [++p(X)] : initial(\"f\",a)\n2 : : [--p(a)] : initial\n3 : : [] : pm(1,2) : 'proof'\n",1},
 {"enormalizer","-s --tstp-format --terms=@ @3","f(a,X)\ng(f(b,'q'))\n",1},
 {"edpll","-s @","p;q<-r.\n<-p.\nr.\n",1},
 {"eprover-ho","-s --auto --tstp-format --processed-clauses-limit=20 @","thf(t,type,p:($i>$o)>$o).\nthf(a,axiom,![F:$i>$o]:((p @ F)=>(p @ (^[X:$i]:(F @ X))))).\n",0},
 {"e_axfilter","-s --tstp-format --filter=@3 @","include('inc.p',[a,'b']).\nfof(c,conjecture,p(a)).\n",0},
};
static const char*FIXED2="fof(f1,axiom,![X]:(p(f(X))|~p(X)|q)).\nfof(f2,axiom,p(a)).\nfof(f3,conjecture,q|p(f(a))).\n";
static vector<int> ints(const char*s){ vector<int> v; while(s&&*s){ v.push_back(strtol(s,(char**)&s,10)); if(*s==',') s++; } return v; }
static const char REP[]="()[],.:'\"&~=!?$Xa1-%/*\\\n|<>@^ _;{`"; static const int NREP=sizeof REP-1;
// 1: certainly not a sequence of complete formulas (brackets or quotes or comments do not match, or something after the last full stop)
static bool malformed(const string&t){ vector<char> st; bool any=false; for(size_t i=0;i<t.size();i++){ unsigned char c=t[i]; if(c=='%'){ while(i<t.size()&&t[i]!='\n') i++; continue; } if(c=='/'&&i+1<t.size()&&t[i+1]=='*'){ size_t e=t.find("*/",i+2); if(e==string::npos) return true; i=e+1; continue; }
    if(c=='\''||c=='"'){ size_t j=i+1; while(j<t.size()&&t[j]!=(char)c){ if(t[j]=='\\') j++; j++; } if(j>=t.size()) return true; i=j; any=true; continue; }
    if(c=='('||c=='[') st.push_back(c); if(c==')'||c==']'){ if(st.empty()||st.back()!=(c==')'?'(':'[')) return true; st.pop_back(); }
    if(c=='.'&&st.empty()&&!(i+1<t.size()&&isdigit((unsigned char)t[i+1]))){ any=false; continue; } if(!isspace(c)) any=true; }
  return any||!st.empty(); }
static string g_strategy;
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string dir=vh_arg("--dir"), dirho=vh_arg("--dirho")?vh_arg("--dirho"):""; auto set=ints(vh_arg("--set")),kinds=ints(vh_arg("--kinds")); int rep=vh_arg("--rep")?atoi(vh_arg("--rep")):NREP; if(rep>NREP) rep=NREP; int step=vh_arg("--step")?atoi(vh_arg("--step")):1;
  setenv("ASAN_OPTIONS","exitcode=99:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=3",1); if(vh_arg("--strategy")) g_strategy=readFile(vh_arg("--strategy"));
  string f1=g_scratch+"/m.p",f2=g_scratch+"/g.p",f3=g_scratch+"/h"; writeFile(f2,FIXED2); if(chdir(g_scratch.c_str())) abort(); writeFile("inc.p","fof(a,axiom,p(a)).\nfof('b',axiom,q).\nfof(d,axiom,r).\n");
  long acc=0,rej=0,bad=0; 
  while(vh_next()){ const Base&b=B[set[choose(set.size())]]; string t=b.text?b.text:g_strategy; int k=kinds[choose(kinds.size())]; int n=t.size();
    if(k==9){ if(!vh_mine()) continue; } // the unchanged text
    else { int np=(n+(k==0)+step-1)/step; int i=choose(np)*step; if(k==0) t=t.substr(0,i); else if(k==1) t.erase(i,1); else if(k==2) t[i]=REP[choose(rep)]; else if(k==3) t.insert(i,1,t[i]); else if(k==4){ if(i+1<n) std::swap(t[i],t[i+1]); } else if(k==5) t[i]=0; else if(k==6) t[i]=(char)0xe9; else if(k==7) t.insert(i,1,REP[choose(rep)]); else if(k==8){ int j=choose(20)+2; t.erase(i,j); }
      else if(k==10){ int j=choose(np)*step; if(j<=i) continue; t=t.substr(0,i)+t.substr(j); } else if(k==11){ int d=choose(5); static const int D[]={10,100,1000,5000,20000}; t.insert(i,string(D[d],choose(2)?'(':'~')); }
      if(!vh_mine()) continue; }
    vh_states++; vh_trans++; bool ho=!strcmp(b.prog,"eprover-ho"); vector<string> a{ho?dirho+"/eprover":dir+"/"+b.prog};
    if(b.lang==2&&t.find('\0')!=string::npos) continue;
    for(auto&o:splitWs(b.opts)){ string r; if(o=="@") r=f1; else if(o=="@2") r=f2; else if(o=="@3") r=f3; else { for(char c:o) if(c=='@') r+=f1; else if(c=='&') r+=t; else r+=c; if(o.size()>2&&o.compare(o.size()-2,2,"@3")==0) r=o.substr(0,o.size()-2)+f3; } a.push_back(r); }
    if(!strcmp(b.prog,"enormalizer")) writeFile(f3,"cnf(r1,axiom,(f(a,X)=X)).\ncnf(r2,axiom,(g(X)=a)).\n"); else writeFile(f3,"g = GSinE(CountTerms,hypos,1.5,,3,100,1.0)\n");
    writeFile(f1,t); { string e; for(char c:t) { if((unsigned char)c<32&&c!='\n'){ char h[8]; snprintf(h,8,"\\x%02x",(unsigned char)c); e+=h; } else e+=c; } vh_note("%s %s\n%s\n",b.prog,b.opts,e.substr(0,600).c_str()); }
    Res r=runProg(a,20,true); int c=r.code();
    if(r.timeout){ vh_fail("hang","%s does not end\n%s",b.prog,r.out.substr(0,300).c_str()); bad++; continue; }
    if(c==99||r.crashed()){ vh_fail("crash","%s crashes (%s %d)\n%s",b.prog,r.crashed()?"signal":"memory error",r.crashed()?WTERMSIG(r.status):c,r.out.substr(r.out.find("ERROR: Addr")==string::npos?0:r.out.find("ERROR: Addr"),900).c_str()); bad++; continue; }
    string s=szs(r.out); bool verdict=s=="Theorem"||s=="Unsatisfiable"||s=="Satisfiable"||s=="CounterSatisfiable"||s=="ContradictoryAxioms"; bool error=c!=0&&s.empty();
    if(error){ rej++; if(verdict){ vh_fail("verdict","verdict %s although the program stopped with error %d",s.c_str(),c); continue; }
      if(r.out.find(':')==string::npos&&r.out.size()<10){ vh_fail("silent","stopped with code %d and no message",c); continue; } }
    else { acc++; if(b.lang==0&&malformed(t)){ vh_fail("accepted","malformed input is accepted (code %d, %s)\n%s",c,s.c_str(),r.out.substr(0,300).c_str()); continue; } }
    if(b.lang==2&&0) continue;
    if(k==9&&error){ vh_fail("base","base input is rejected with %d\n%s",c,r.out.substr(0,300).c_str()); continue; }
    vh_outcome(vh_hs((s+std::to_string(c)+(error?r.out.substr(0,200):"")).c_str())); vh_sample(); }
  vh_stat("accepted",acc); vh_stat("rejected",rej); scratchDone(); return vh_done(); }
