// ans.cpp - C24: answers.  --exe eprover --k axioms --opts "..." --role question|conjecture [--thin n]
#include "pools.hpp"
#include "sem.hpp"
#include <map>
static const char*AX[]={"p(a)|p(b)","p(c)","![X]:(p(X)=>q(X,f(X)))","![X]:(q(X,X)|r(X))","a=b","f(f(X))=X","![X]:(r(X)=>p(f(X)))","~p(f(a))","q(a,b)|r(c)","![X,Y]:(q(X,Y)=>q(Y,X))","?[X]:(r(X)&~p(X))","f(a)=c|f(b)=c","![X]:?[Y]:q(Y,X)","![X]:(f(X)=a|p(X))","~r(a)","![X,Y]:(p(X)|p(Y)|q(f(X),Y))"};
struct Qn { int n; const char*pre,*body; };
static const Qn QS[]={{1,"?[V1]:","p(@1)"},{2,"?[V1,V2]:","q(@1,@2)"},{1,"?[V1]:","(p(@1)&~r(@1))"},{2,"?[V1,V2]:","(q(@1,@2)&@1!=@2)"},{1,"?[V1]:","(![Y]:(q(@1,Y)|p(Y)))"},{1,"?[V1]:","f(@1)=a"},{2,"?[V1]:?[V2]:","(p(@1)|q(@2,@1))"},{1,"?[V1]:","(p(@1)=>p(f(@1)))"},{2,"?[V1,V2]:","(p(@1)<=>q(@1,@2))"},{2,"?[V1,V2]:","(r(@2)&q(@2,@1))"},{3,"?[V1,V2,V3]:","(q(@1,@3)&p(@2))"},{1,"?[V1]:","(p(@1)&?[Y]:q(@1,Y))"},{2,"?[V2,V1]:","(q(@2,f(@1))|r(f(f(@2))))"}};
static string subst(const char*body,const vector<string>&t){ string s; for(const char*c=body;*c;c++) if(*c=='@'){ c++; s+=t[*c-'1']; } else s+=*c; return s; }
static string strip(string s){ size_t a=s.find_first_not_of(' '),b=s.find_last_not_of(' '); return a==string::npos?"":s.substr(a,b-a+1); }
// [t1, ..., tn]|[...]  ->  list of tuples; false if malformed
static bool tuples(const string&s,vector<vector<string>>&out){ size_t i=0; while(i<s.size()){ if(s[i]!='[') return false; i++; int d=0; vector<string> t; string c; for(;i<s.size();i++){ if(s[i]=='('||s[i]=='[') d++; if(s[i]==']'&&d==0) break; if(s[i]==')'||s[i]==']') d--; if(s[i]==','&&d==0){ t.push_back(strip(c)); c.clear(); } else c+=s[i]; } if(i>=s.size()) return false; t.push_back(strip(c)); out.push_back(t); i++; if(i<s.size()){ if(s[i]!='|') return false; i++; if(i>=s.size()) return false; } } return !out.empty(); }
// replace maximal subterms with a Skolem symbol by variables S1..
static string deskolem(const string&t,std::map<string,string>&m){ string r; for(size_t i=0;i<t.size();){ if(isalpha((unsigned char)t[i])||t[i]=='_'){ size_t j=i; while(j<t.size()&&(isalnum((unsigned char)t[j])||t[j]=='_')) j++; string w=t.substr(i,j-i); if(w.compare(0,3,"esk")==0||w.compare(0,4,"edef")==0){ size_t e=j; if(e<t.size()&&t[e]=='('){ int d=0; for(;e<t.size();e++){ if(t[e]=='(') d++; if(t[e]==')'&&--d==0){ e++; break; } } } string full=t.substr(i,e-i); auto it=m.find(full); if(it==m.end()) it=m.insert({full,"S"+std::to_string(m.size()+1)}).first; r+=it->second; i=e; } else { r+=w; i=j; } } else r+=t[i++]; } return r; }
static void vars(const string&t,set<string>&v){ for(size_t i=0;i<t.size();){ if(isalnum((unsigned char)t[i])||t[i]=='_'){ size_t j=i; while(j<t.size()&&(isalnum((unsigned char)t[j])||t[j]=='_')) j++; if(isupper((unsigned char)t[i])) v.insert(t.substr(i,j-i)); i=j; } else i++; } }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string E=vh_arg("--exe"); int K=atoi(vh_arg("--k")); string role=vh_arg("--role"); vector<string> opts; { string o=vh_arg("--opts")?vh_arg("--opts"):""; string w; for(char c:o+" ") if(c==' '){ if(!w.empty()) opts.push_back(w); w.clear(); } else w+=c; } long thin=vh_arg("--thin")?atol(vh_arg("--thin")):1;
  long total=0; int na=sizeof AX/sizeof*AX,nq=sizeof QS/sizeof*QS; std::map<string,int> memo;
  while(vh_next()){
    int q=choose(nq),k=1+choose(K); vector<int> ids; int lo=0; bool bad=false; for(int i=0;i<k;i++){ if(lo>=na){ bad=true; break; } int c=lo+choose(na-lo); ids.push_back(c); lo=c+1; } if(bad) continue; if(!vh_mine()) continue; { long h=q*31; for(int x:ids) h=h*17+x; if(thin>1&&h%thin) continue; }
    string ax; int i=0; for(int x:ids){ string f=AX[x]; if(f.find("f(f(X))")==0) f="![X]:"+f; ax+="fof(a"+std::to_string(++i)+",axiom,("+f+")).\n"; } string qt=string(QS[q].pre)+"("+subst(QS[q].body,{"V1","V2","V3"})+")";
    string text=ax+"fof(g,"+role+",("+qt+")).\n"; string f=g_scratch+"/q.p"; writeFile(f,text); vh_note("%s%s %s",text.c_str(),vh_arg("--opts")?vh_arg("--opts"):"",role.c_str()); vh_states++;
    vector<string> a{E,"-s","--answers=4","-C60","--generated-limit=3000","--cpu-limit=20"}; a.insert(a.end(),opts.begin(),opts.end()); if(role=="conjecture") a.push_back("--conjectures-are-questions"); a.push_back(f); Res r=runProg(a,40); vh_trans++; if(r.crashed()){ vh_fail("crash","the prover crashes on a question"); continue; }
    if(r.out.find("Unknown Option")!=string::npos||r.code()==1){ string w=r.out.substr(0,200); if(szs(r.out).empty()){ vh_fail("usage","the prover stops: exit %d %s",r.code(),w.c_str()); continue; } }
    { string st=szs(r.out); static std::map<string,string> base; auto it=base.find(ax+qt); if(it==base.end()){ writeFile(f+"c",ax+"fof(g,conjecture,("+qt+")).\n"); Res c=runProg({E,"-s","-C60","--generated-limit=3000","--cpu-limit=20",f+"c"},40); vh_trans++; it=base.insert({ax+qt,szs(c.out)}).first; } bool t1=st=="Theorem"||st=="ContradictoryAxioms",t2=it->second=="Theorem"||it->second=="ContradictoryAxioms",n1=st=="CounterSatisfiable"||st=="Satisfiable",n2=it->second=="CounterSatisfiable"||it->second=="Satisfiable"; if((t1&&n2)||(t2&&n1)){ vh_fail("status","the status is %s for the question and %s for the conjecture",st.c_str(),it->second.c_str()); continue; } }
    size_t p=0; int n=0; while((p=r.out.find("SZS answers",p))!=string::npos){ size_t e=r.out.find('\n',p); string l=r.out.substr(p,e-p); p=e; n++; size_t b=l.find("Tuple ["),x=l.rfind("|_]"); if(b==string::npos||x==string::npos){ vh_fail("form","answer line cannot be read: %s",l.c_str()); break; } string s=l.substr(b+7,x-b-7); if(!s.empty()&&s[0]=='('){ s=s.substr(1,s.size()-2); } vector<vector<string>> ts; bool p5=false,p13=false; { bool e=s=="[]"; for(auto w:{"[]|","|[]"}) if(s.find(w)!=string::npos) e=true; for(int x:ids){ p5|=x==5; p13|=x==13; } if(e&&p5&&p13){ vh_fail("tuple","with f(f(X))=X and f(X)=a|p(X) the tuple of an answer is lost: %s",l.c_str()); break; } } if(!tuples(s,ts)){ vh_fail("form","answer line cannot be read: %s",l.c_str()); break; }
      string dis; set<string> uv; std::map<string,string> sk; bool ok=true; for(auto&t:ts){ if((int)t.size()!=QS[q].n){ if(p5&&p13) vh_fail("tuple","with f(f(X))=X and f(X)=a|p(X) the tuple of an answer is lost: %s",l.c_str()); else vh_fail("form","an answer has %zu parts for %d variables: %s",t.size(),QS[q].n,l.c_str()); ok=false; break; } for(auto&u:t){ vars(u,uv); u=deskolem(u,sk); } vector<string> o=t; if(string(QS[q].pre).find("V2,V1")!=string::npos) std::swap(o[0],o[1]); string inst=subst(QS[q].body,o); dis+=(dis.empty()?"":"|")+("("+inst+")"); } if(!ok) break;
      string quant; if(!uv.empty()){ quant="!["; bool c=false; for(auto&v:uv){ quant+=(c?",":"")+v; c=true; } quant+="]:"; } if(!sk.empty()){ quant+="?["; bool c=false; for(auto&v:sk){ quant+=(c?",":"")+v.second; c=true; } quant+="]:"; }
      string chk=ax+"fof(n,axiom,~("+quant+"("+dis+"))).\n"; auto it=memo.find(chk); int sz=0; if(it==memo.end()){ Sig sig; vector<Form> fs; try{ for(auto&an:parseAll(sig,chk)) fs.push_back({an.f,an.varSort}); }catch(ParseError&e){ vh_fail("form","answer cannot be read: %s (%s)",l.c_str(),e.what()); break; } for(int d=1;d<=3&&!sz;d++){ int v=satisfiable(sig,fs,d,300000); if(v==1) sz=d; vh_trans++; } memo[chk]=sz; } else sz=it->second;
      vh_outcome(vh_hs(chk.c_str())); if(sz){ vh_fail("answer","the answer %s is wrong: the axioms have a model with %d elements in which it does not hold",l.c_str(),sz); break; } }
    if(n>4) vh_fail("limit","%d answers are printed, the limit is 4",n); total+=n; vh_sample(); }
  vh_stat("answers",total); scratchDone(); return vh_done(); }
