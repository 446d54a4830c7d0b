// pcl.cpp - C25: epclextract and checkproof on every small protocol, and the chain prover / epclextract / checkproof on every minimal unsatisfiable set.
//   --dir programs  --mode extract|check|chain  --n steps  --rot N  --lite 1
#include "pools.hpp"
#include <map>
static string D;
static string strip(const string&s){ string o; bool q=false; for(char c:s){ if(c=='\''||c=='"') q=!q; if(!q&&isspace((unsigned char)c)) continue; o+=c; } return o; }
static vector<string> lines(const string&t){ vector<string> v; string l; for(char c:t){ if(c=='\n'){ if(!strip(l).empty()&&strip(l)[0]!='%') v.push_back(strip(l)); l.clear(); } else l+=c; } if(!strip(l).empty()) v.push_back(strip(l)); return v; }
static string joinL(const vector<string>&v){ string s; for(auto&x:v) s+=x+"\n"; return s; }
static string upper(const string&c){ return c; }
// TPTP clause text "p(X)|~q(a)|a!=b" as old PCL clause
static string pclClause(const string&c){ if(c.empty()) return "[]"; string o="["; vector<string> ls; string cur; int d=0; for(char ch:c){ if(ch=='(') d++; if(ch==')') d--; if(ch=='|'&&!d){ ls.push_back(cur); cur.clear(); } else cur+=ch; } ls.push_back(cur); bool f=true; for(auto l:ls){ if(!f) o+=","; f=false; size_t p; if(l[0]=='~') o+="--"+l.substr(1); else if((p=l.find("!="))!=string::npos) o+="--equal("+l.substr(0,p)+","+l.substr(p+2)+")"; else if((p=l.find("="))!=string::npos) o+="++equal("+l.substr(0,p)+","+l.substr(p+1)+")"; else o+="++"+l; } return o+"]"; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); D=vh_arg("--dir"); string mode=vh_arg("--mode"); int n=vh_arg("--n")?atoi(vh_arg("--n")):4; bool lite=vh_arg("--lite"); int rot=vh_arg("--rot")?atoi(vh_arg("--rot")):1; string f=g_scratch+"/p.pcl",f2=g_scratch+"/x.pcl",fp=g_scratch+"/p.p";
  vector<pair<int,unsigned>> probs; if(mode=="chain"){ set<pair<int,unsigned>> S; FILE*c=fopen(vh_arg("--cores"),"r"); char nm[64]; unsigned m; char v; while(fscanf(c,"%63s %u %c",nm,&m,&v)==3){ if(v!='U') continue; int pi=-1; for(size_t i=0;i<POOLS.size();i++) if(!strcmp(POOLS[i].name,nm)) pi=i; if(pi>=0&&S.insert({pi,m}).second) probs.push_back({pi,m}); } fclose(c); }
  while(vh_next()){
    if(mode=="extract"){ vector<vector<int>> par(n); vector<int> form(n),mark(n); for(int i=0;i<n;i++){ int m=i; int o=choose(1+m+m*m+(m>=2&&n<=4?1:0)); if(o==0) form[i]=0; else if(o<=m){ form[i]=1; par[i]={o-1}; } else if(o<=m+m*m){ form[i]=2; o-=m+1; par[i]={o/m,o%m}; } else { form[i]=3; par[i]={0,m-1,m-2}; } }
      for(int i=0;i<n;i++) mark[i]=lite?(i>=n-2?choose(3):2*choose(2)):n<=4||i>=n-2?choose(i>=n-2?4:3):0; int ids=choose(n<=4?3:2); int order=choose(n<=4?3:1); if(!vh_mine()) continue;
      vector<string> id(n),txt(n); for(int i=0;i<n;i++) id[i]=ids==0?std::to_string(i+1):ids==1?std::to_string(3+i*(i+4)):(i<2?"1."+std::to_string(i+1):std::to_string(i)+(i==2?".7.1":""));
      static const char*MK[]={"","'proof'","'final'","'lemma'"}; for(int i=0;i<n;i++){ string L; switch((i+ids)%4){ case 0: L="[++p"+std::to_string(i)+"(X1,a),--q(X1)]"; break; case 1: L="(p"+std::to_string(i)+"(a)|q(b))"; break; case 2: L=mark[i]==1?"[]":"[++equal(f"+std::to_string(i)+"(X1),X2)]"; break; default: L="[--q(c"+std::to_string(i)+")]"; }
        string J=form[i]==0?"initial(\"f\",n"+std::to_string(i)+")":form[i]==1?(i%2?id[par[i][0]]:"er("+id[par[i][0]]+")"):form[i]==2?"pm("+id[par[i][0]]+","+id[par[i][1]]+")":"rw(sr("+id[par[i][0]]+","+id[par[i][1]]+"),"+id[par[i][2]]+")";
        txt[i]=id[i]+" : "+(i%3==1?"neg":"")+" : "+L+" : "+J+(mark[i]?string(" : ")+MK[mark[i]]:""); }
      string all; if(order==0) for(int i=0;i<n;i++) all+=txt[i]+"\n"; else if(order==1) for(int i=n-1;i>=0;i--) all+=txt[i]+"\n"; else { for(int i=0;i<n;i+=2) all+=txt[i]+"\n"; for(int i=1;i<n;i+=2) all+=txt[i]+"\n"; }
      writeFile(f,all); vh_note("%s",all.c_str()); vh_states++;
      vector<char> need(n,0); bool tail=true; for(int i=n-1;i>=0;i--){ if(mark[i]==1||mark[i]==2) need[i]=1; if(need[i]) for(int p:par[i]) need[p]=1; } int firstm=n; for(int i=0;i<n;i++) if(mark[i]==1||mark[i]==2){ firstm=i; break; } for(int i=firstm;i<n;i++) if(mark[i]!=1&&mark[i]!=2) tail=false;
      vector<string> exp,every; for(int i=0;i<n;i++){ every.push_back(strip(txt[i])); if(need[i]) exp.push_back(strip(txt[i])); }
      for(int m=0;m<3;m++){ if(m==1&&(order||ids==2||!tail||firstm==n)) continue; if(m==2&&(vh_execs%5)) continue; vector<string> a{D+"/epclextract"}; if(m==1) a.push_back("-f"); if(m==2) a.push_back("-n"); a.push_back(f); Res r=runProg(a,20); vh_trans++;
        if(r.timeout||r.crashed()||r.code()!=0){ vh_fail("run","epclextract %s fails on a well-formed protocol (status %d)",m==1?"-f":m==2?"-n":"",r.code()); break; }
        auto got=lines(r.out); auto&w=m==2?every:exp; if(got!=w){ vh_fail(m==1?"fast":m==2?"all":"extract","epclextract%s prints\n%sexpected\n%s",m==1?" -f":m==2?" -n":"",joinL(got).c_str(),joinL(w).c_str()); break; } vh_outcome(vh_hs(joinL(got).c_str())); }
      vh_sample(); }
    else if(mode=="check"){ // three initial steps, one inferred step
      static const vector<const char*> P{"p(a)","~p(X)|q(X)","q(a)","~q(X)","p(X)","a=b","q(b)|p(a)","","p(X)|~q(X)|X=a","a!=a","p(b)"}; int m=n; int x=choose(m),y=choose(m),z=choose(m),c=choose(m),j=choose(4); if(!vh_mine()) continue; if(rot>1&&(x*7+y*3+z*5+c+j)%rot) continue;
      static const char*J[]={"pm(1,2)","er(1)","rw(sr(1,2),3)","3"}; static const int U[]={3,1,7,4}; string t; int ps[]={x,y,z}; for(int i=0;i<3;i++) t+=std::to_string(i+1)+" : : "+pclClause(P[ps[i]])+" : initial(\"f\",a)\n"; t+="4 : : "+pclClause(P[c])+" : "+J[j]+" : 'proof'\n"; writeFile(f,t); vh_note("%s",t.c_str()); vh_states++;
      string o; for(int i=0;i<3;i++) if(U[j]>>i&1) o+="cnf(a,axiom,("+string(*P[ps[i]]?P[ps[i]]:"$false")+")).\n"; o+="cnf(c,axiom,("+string(*P[c]?P[c]:"$false")+")).\n"; Sig sig; auto v=parseAll(sig,o); vector<Form> prem; for(size_t i=0;i+1<v.size();i++) prem.push_back({v[i].f,v[i].varSort}); Form con{v.back().f,v.back().varSort};
      int fol=1; for(int d=1;d<=3&&fol==1;d++){ int e=entails(sig,prem,con,d); if(e==0) fol=0; if(e<0) fol=-1; }   // function-free: two constants and one negated variable
      Res r=runProg({D+"/checkproof","-s","-x",D+"/eprover",f},60,true); vh_trans++; if(r.timeout||r.crashed()||r.code()!=0){ vh_fail("run","checkproof fails (status %d)\n%s",r.code(),r.out.c_str()); continue; }
      bool ok=r.out.find("Proof verified!")!=string::npos; if(ok&&fol==0) vh_fail("verified","a step that does not follow is reported as verified\n%s",r.out.c_str()); if(!ok&&fol==1) vh_fail("refused","a step that follows is not verified\n%s",r.out.c_str()); vh_outcome(ok*3+fol+1+10*j); vh_sample(); }
    else { auto pm=probs[choose(probs.size())]; Pool&P=POOLS[pm.first]; int ci=choose(CFGS.size()); if(!vh_mine()) continue; if((pm.second%10007+ci*31)%rot) continue; if(strstr(CFGS[ci].opts,"split")||strstr(CFGS[ci].opts,"satcheck")||strstr(CFGS[ci].opts,"pred-elim")||strstr(CFGS[ci].opts,"goal-defs")||strstr(CFGS[ci].opts,"disequality")||strstr(CFGS[ci].opts,"bce")) continue;
      string t; int k=0; for(int j=0;j<32;j++) if(pm.second>>j&1) t+="cnf(c"+std::to_string(k++)+",axiom,("+P.cl[j]+")).\n"; writeFile(fp,t); vh_note("[%s]\n%s",CFGS[ci].opts,t.c_str()); vh_states++;
      vector<string> a{D+"/eprover","-C60","--generated-limit=400","--cpu-limit=2","--pcl-out","-l","4"}; for(auto&o:splitWs(CFGS[ci].opts)) a.push_back(o); a.push_back(fp); Res r=runProg(a,60); vh_trans++; string z=szsLast(r.out); if(z!="Unsatisfiable"||r.out.size()>300000) continue;
      writeFile(f,r.out); Res x=runProg({D+"/epclextract","-c",f},20,true); Res y=runProg({D+"/epclextract","-f",f},20,true); if(x.code()!=0||x.crashed()){ vh_fail("chain-extract","epclextract rejects the protocol of the prover\n%s",x.out.substr(0,400).c_str()); continue; } if(y.code()!=0||y.crashed()){ vh_fail("chain-extract","epclextract -f rejects the protocol of the prover\n%s",y.out.substr(0,400).c_str()); continue; }
      if(x.out.find("SZS output start CNFRefutation")==string::npos){ vh_fail("chain-proof","the extracted protocol is not a refutation\n%s",x.out.substr(0,600).c_str()); continue; }
      if(lines(x.out)!=lines(y.out)){ vh_fail("chain-modes","the two modes of epclextract differ\n%s---\n%s",joinL(lines(x.out)).substr(0,800).c_str(),joinL(lines(y.out)).substr(0,800).c_str()); continue; }
      writeFile(f2,x.out); Res c=runProg({D+"/checkproof","-s","-t","5","-x",D+"/eprover",f2},120,true); vh_trans++; if(c.out.find("Proof verified!")==string::npos) vh_fail("chain-check","the proof is not accepted\n%s\n%s",joinL(lines(x.out)).c_str(),c.out.substr(0,600).c_str()); vh_outcome(vh_hs(joinL(lines(x.out)).c_str())); vh_sample(); } }
  scratchDone(); return vh_done(); }
