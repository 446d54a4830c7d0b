// axf.cpp - C22: e_axfilter on every problem from a pool x every filter from a grid, against a reference selection; seeded selection; the prover with a filter.
//   --dir programs  --mode sine|seed|prover  --big 1
#include "pools.hpp"
#include <map>
#include <dirent.h>
struct F { const char*name,*role,*text; };
static const vector<F> POOL={
 {"a0","axiom","![X]:(p(X)=>q(X))"},{"a1","axiom","![X]:(q(X)=>r(X,a))"},{"a2","axiom","r(a,b)|s"},{"a3","axiom","![X,Y]:X=Y"},{"a4","axiom","f(a)=b&f(b)=a"},
 {"a5","axiom","![X]:(s<=>(p(X)&p(f(X))))"},{"h0","hypothesis","q(c)"},{"a6","axiom","?[X]:(s|X!=X)"},{"h1","hypothesis","t&~r(c,c)"},{"a7","axiom","t=>(s|t)"},{"a8","axiom","![X]:(X=f(X)|r(X,f(X)))"},{"a9","axiom","c=d"}};
static const vector<F> GOAL={{"g0","conjecture","?[X]:q(X)"},{"g1","conjecture","p(a)=>s"},{"g2","conjecture","?[X]:X=X"},{"g3","negated_conjecture","~t"},{"g4","conjecture","f(c)=c"}};
struct Flt { int terms,hyp; double ben; long gen,dep,size; double frac; int nos; string name,def; };
static vector<string> occ(const string&t){ vector<string> v; for(size_t i=0;i<t.size();){ if(islower((unsigned char)t[i])){ size_t j=i; while(j<t.size()&&(isalnum((unsigned char)t[j])||t[j]=='_')) j++; v.push_back(t.substr(i,j-i)); i=j; } else if(isupper((unsigned char)t[i])){ while(i<t.size()&&isalnum((unsigned char)t[i])) i++; } else i++; } return v; }
static bool isSeed(const string&role,int hyp){ return role=="conjecture"||role=="negated_conjecture"||(hyp&&role=="hypothesis"); }
// levels[i]: round in which formula i is reached (0 seed), -1 never; nos[i]: no trigger symbol
static void sine(const vector<F>&P,const vector<string>&role,const vector<string>&order,const Flt&f,vector<int>&lev,vector<char>&nos,long&limit){
  int n=P.size(); map<string,long> tf,ff; vector<vector<string>> o(n); for(int i=0;i<n;i++){ o[i]=occ(P[i].text); set<string> s(o[i].begin(),o[i].end()); for(auto&x:o[i]) tf[x]++; for(auto&x:s) ff[x]++; }
  map<string,vector<int>> D; nos.assign(n,0); for(int i=0;i<n;i++){ set<string> s(o[i].begin(),o[i].end()); vector<string> v(s.begin(),s.end()); auto key=[&](const string&x){ long a=f.terms?tf[x]:ff[x],b=f.terms?ff[x]:tf[x]; long c=std::find(order.begin(),order.end(),x)-order.begin(); return std::make_tuple(a,b,c); }; std::sort(v.begin(),v.end(),[&](const string&x,const string&y){ return key(x)<key(y); });
    long k=0; if(!v.empty()){ double lim=std::get<0>(key(v[0]))*f.ben; for(auto&x:v){ if(k>=f.gen||std::get<0>(key(x))>lim) break; D[x].push_back(i); k++; } } if(!k) nos[i]=1; }
  lev.assign(n,-1); vector<int> cur; for(int i=0;i<n;i++) if(isSeed(role[i],f.hyp)){ lev[i]=0; cur.push_back(i); } bool seeds=!cur.empty(); for(int l=1;!cur.empty()&&l<=f.dep;l++){ vector<int> nx; for(int i:cur) for(auto&x:o[i]) for(int j:D[x]) if(lev[j]<0){ lev[j]=l; nx.push_back(j); } cur=nx; }
  limit=(long)(f.frac*n); if(f.size<limit) limit=f.size; if(!seeds){ nos.assign(n,0); } if(!f.nos) nos.assign(n,0); }
static map<string,std::pair<string,int>> parseOut(const string&t,bool&dup,string&names){ map<string,std::pair<string,int>> m; dup=false; size_t i=0; string l; for(;;){ size_t e=t.find('\n',i); if(e==string::npos) break; l=t.substr(i,e-i); i=e+1; size_t p; if(l.compare(0,4,"fof(")==0||l.compare(0,4,"cnf(")==0){ p=l.find(','); string n=l.substr(4,p-4); names+=n+" "; if(m.count(n)) dup=true; m[n]={l.substr(p+1),1}; } } return m; }
static string judge(const vector<F>&P,const vector<string>&role,const vector<string>&order,const Flt&f,const map<string,std::pair<string,int>>&got,bool dup,const map<string,std::pair<string,int>>&all){
  if(dup) return "a formula is printed twice"; vector<int> lev; vector<char> nos; long limit; sine(P,role,order,f,lev,nos,limit); int n=P.size(); for(auto&g:got){ bool in=false; for(int i=0;i<n;i++) if(g.first==P[i].name) in=true; if(!in) return "a formula that is not in the input: "+g.first; auto a=all.find(g.first); if(a==all.end()||a->second.first!=g.second.first){ string want; for(int i=0;i<n;i++) if(g.first==P[i].name&&role[i]!=P[i].role){ want="r"; string w=role[i]; if(g.second.first.compare(0,1+w.size()+1," "+w+",")&&g.second.first.compare(0,w.size()+1,w+",")) return g.first+" has the wrong role"; } if(want.empty()) return "a formula is changed: "+g.first; } }
  long full=0; for(int i=0;i<n;i++) full+=lev[i]>=0; long want=std::min(full,limit); long sel=0; int top=-1; for(int i=0;i<n;i++){ bool g=got.count(P[i].name); if(g&&lev[i]<0&&!nos[i]) return string(P[i].name)+" is selected but not relevant"; if(!g&&nos[i]) return string(P[i].name)+" has no symbols and is not passed"; if(g&&lev[i]>=0&&!nos[i]) top=std::max(top,lev[i]); }
  long lo=0,hi=0; for(int i=0;i<n;i++) if(got.count(P[i].name)){ if(lev[i]>=0) hi++; if(lev[i]>=0&&!nos[i]) lo++; } sel=lo; (void)sel; if(want<lo||want>hi) return "selected "+std::to_string(hi)+" formulas, expected "+std::to_string(want);
  for(int i=0;i<n;i++) if(lev[i]>=0&&lev[i]<top&&!got.count(P[i].name)) return string(P[i].name)+" is left out although a less relevant formula is selected"; return ""; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string D=vh_arg("--dir"),mode=vh_arg("--mode"); bool big=vh_arg("--big"); if(chdir(g_scratch.c_str())) abort();
  vector<Flt> fl; long N=1000000; auto num=[&](long v,const char*fmt){ char b[64]; if(v==N) return string(); snprintf(b,64,fmt,v); return string(b); };
  vector<double> bens= {1.0,1.5,2.0,3.0}; vector<long> gens{N,1,2}; vector<long> deps{N,0,1,2}; vector<long> sizes{N,1,2,4}; vector<double> fr{1.0,0.5}; if(mode!="sine"){ bens={1.0,2.0}; gens={N}; deps={N,1}; sizes={N}; fr={1.0}; } if(!big&&mode=="sine"){ bens={1.0,1.5,3.0}; }
  for(int t=0;t<2;t++) for(int h=0;h<2;h++) for(double b:bens) for(long g:gens) for(long d:deps) for(long s:sizes) for(double x:fr) for(int no=0;no<2;no++){ if((g!=N)+(d!=N)+(s!=N)+(x!=1.0)+(no!=0)>(big?5:2)) continue; if(mode=="seed"&&!h) continue; Flt f{t,h,b,g,d,s,x,no,"f"+std::to_string(fl.size()),""}; char bb[32]; snprintf(bb,32,"%.1f",b); char xx[32]; snprintf(xx,32,"%.1f",x); f.def="GSinE("+string(t?"CountTerms":"CountFormulas")+","+(h?"hypos":"nohypos")+","+(b==1.0?"":bb)+","+num(g,"%ld")+","+num(d,"%ld")+","+num(s,"%ld")+","+(x==1.0&&!no?"1.0":xx)+(no?",addnosymb":"")+")"; fl.push_back(f); }
  int parts=mode=="sine"&&!big?3:1; for(int q=0;q<parts;q++){ string defs; for(size_t i=q;i<fl.size();i+=parts) defs+=fl[i].name+"="+fl[i].def+"\n"; defs+="thr=Threshold(1000)\nthr3=Threshold(3)\n"; writeFile(q?"flt"+std::to_string(q):"flt",defs); } int np=big?POOL.size():10; if(mode!="sine") np=big?10:8;
  while(vh_next()){ int gi=choose(mode=="seed"?3:7); unsigned m=choose(1u<<np); int var=mode=="seed"?choose(11):mode=="prover"?choose(fl.size()):0; if(!vh_mine()) continue; int cnt=__builtin_popcount(m); if(cnt>(big?6:mode=="sine"?5:4)) continue; if(mode=="prover"&&cnt<1) continue;
    vector<F> P; for(int i=0;i<np;i++) if(m>>i&1) P.push_back(POOL[i]); if(mode=="seed"){ if(gi==1) P.push_back(GOAL[1]); if(gi==2) P.push_back(GOAL[3]); } else { if(gi<5) P.insert(gi%2?P.begin():P.end(),GOAL[gi]); if(gi==5){ P.push_back(GOAL[0]); P.push_back(GOAL[4]); P.push_back(GOAL[3]); } } if(P.empty()) continue;
    string t; vector<string> role,order; for(auto&f:P){ t+="fof("+string(f.name)+","+f.role+","+f.text+").\n"; role.push_back(f.role); for(auto&x:occ(f.text)) if(std::find(order.begin(),order.end(),x)==order.end()) order.push_back(x); } writeFile("p.p",t); vh_note("%s",t.c_str()); vh_states++;
    if(mode=="prover"){ Flt&f=fl[var]; vh_note("[--sine=%s]\n%s",f.def.c_str(),t.c_str()); Res r=runProg({D+"/eprover","--sine="+f.def,"-s","-C300","--cpu-limit=4","p.p"},20,true); vh_trans++; if(r.timeout||r.crashed()){ vh_fail("run","the prover fails\n%s",r.out.substr(0,300).c_str()); continue; } string z=szsLast(r.out); bool claim=z=="CounterSatisfiable"||z=="Satisfiable",pr=z=="Theorem"||z=="ContradictoryAxioms"||z=="Unsatisfiable"; Res u=runProg({D+"/eprover","-s","--auto","--cpu-limit=4","p.p"},20,true); string w=szsLast(u.out); bool uc=w=="CounterSatisfiable"||w=="Satisfiable",up=w=="Theorem"||w=="ContradictoryAxioms"||w=="Unsatisfiable";
      if(claim&&up) vh_fail("verdict","reports %s with a filter, %s without",z.c_str(),w.c_str()); if(pr&&uc) vh_fail("verdict","reports %s with a filter, %s without",z.c_str(),w.c_str()); vector<int> lev; vector<char> nos; long lim; sine(P,role,order,f,lev,nos,lim); bool all=true; for(size_t i=0;i<P.size();i++) if(lev[i]<0&&!nos[i]) all=false; if(!all&&claim) vh_fail("verdict","reports %s although the filter removed formulas",z.c_str()); vh_outcome(vh_hs((z+w).c_str())+all); vh_sample(); continue; }
    int part=(gi+cnt+m)%parts; vector<string> a{D+"/e_axfilter","-f",part?"flt"+std::to_string(part):"flt"}; vector<string> meth,cls; string sub; static const char*VS[][3]={{"p","a",""},{"pfc","a",""},{"f","l",""},{"pc","l",""},{"p","d",""},{"pfc","d",""},{"pfc","lda",""},{"pfc","a","m2"},{"pfc","a","l2"},{"p","l","m1"},{"c","ad",""}};
    if(mode=="seed"){ a.push_back("--seed-symbols="+string(VS[var][0])); a.push_back("--seed-method="+string(VS[var][1])); if(*VS[var][2]) a.push_back("--seed-subsample="+string(VS[var][2])); string c; for(auto&x:a) c+=x+" "; vh_note("[%s]\n%s",c.c_str(),t.c_str()); } a.push_back("p.p"); Res r=runProg(a,60,true); vh_trans++;
    if(r.timeout||r.crashed()||r.code()!=0){ vh_fail("run","e_axfilter fails\n%s",r.out.substr(0,400).c_str()); continue; }
    bool dup,bad=false; string nm; map<string,std::pair<string,int>> all; uint64_t oh=0;
    if(mode=="sine"){ all=parseOut(readFile("p_thr.p"),dup,nm); if(dup||all.size()!=P.size()){ vh_fail("threshold","a threshold filter does not pass all formulas: %s",nm.c_str()); bad=true; } string n3; bool d3; auto t3=parseOut(readFile("p_thr3.p"),d3,n3); if(!bad&&(t3.size()!=(P.size()<=3?P.size():0))){ vh_fail("threshold","Threshold(3) passes %zu of %zu formulas",t3.size(),P.size()); bad=true; } unlink("p_thr.p"); unlink("p_thr3.p");
      for(size_t fi=part;fi<fl.size();fi+=parts){ Flt&f=fl[fi]; string fn="p_"+f.name+".p",n; bool d2; auto g=parseOut(readFile(fn),d2,n); unlink(fn.c_str()); if(bad) continue; vh_trans++; string e=judge(P,role,order,f,g,d2,all); oh=oh*1000003+vh_hs(n.c_str()); if(!e.empty()){ vh_fail("select","%s: %s\nselected: %s",f.def.c_str(),e.c_str(),n.c_str()); bad=true; } } }
    else { vector<string> files; DIR*d=opendir("."); while(dirent*e=readdir(d)) if(!strncmp(e->d_name,"p_",2)) files.push_back(e->d_name); closedir(d); std::sort(files.begin(),files.end());
      Res r2=runProg({D+"/e_axfilter","-f","flt","-o","/dev/null","p.p"},60,true); all=parseOut(readFile("p_thr.p"),dup,nm); map<string,int> seen; // seed symbol + method -> files
      map<string,long> ff; for(auto&f:P){ auto o=occ(f.text); set<string> s(o.begin(),o.end()); for(auto&x:s) ff[x]++; } set<string> PR{"p","q","r","s","t"},FU{"f"}; vector<string> el; for(auto&x:order){ char k=PR.count(x)?'p':FU.count(x)?'f':'c'; if(strchr(VS[var][0],k)) el.push_back(x); }
      for(auto&fn:files){ string txt=readFile(fn); if(bad) break; size_t p=txt.find("Seed symbol: "); if(p==string::npos){ vh_fail("seed","%s has no seed symbol",fn.c_str()); bad=true; break; } string s=txt.substr(p+13); s=s.substr(0,s.find(' ')); p=txt.find("Seeds      : "); char me=txt[p+13]; me=me=='A'?'a':me=='L'?'l':'d'; seen[s+me]++; p=fn.rfind("_f"); string id=fn.substr(p+1,fn.size()-p-3); Flt*f=nullptr; for(auto&x:fl) if(x.name==id) f=&x; if(!f) continue;
        vector<string> ro=role; int best=-1; size_t bs=0; vector<int> ties; for(size_t i=0;i<P.size();i++){ auto o=occ(P[i].text); if(std::find(o.begin(),o.end(),s)==o.end()) continue; if(me=='a'){ if(ro[i]=="axiom") ro[i]="hypothesis"; } else if(me=='d'){ size_t v=set<string>(o.begin(),o.end()).size(); if(v>bs){ bs=v; best=i; } ties.push_back(i); } else ties.push_back(i); }
        bool d2; string n; auto g=parseOut(txt,d2,n); string e; vh_trans++; if(me=='a') e=judge(P,ro,order,*f,g,d2,all); else { // any of the candidate formulas of the largest size; size is only compared for diversity
          e="none"; for(int i:ties){ if(me=='d'){ auto o=occ(P[i].text); if(set<string>(o.begin(),o.end()).size()+2<bs) continue; } vector<string> r1=role; if(r1[i]=="axiom") r1[i]="hypothesis"; e=judge(P,r1,order,*f,g,d2,all); if(e.empty()) break; } (void)best; }
        oh=oh*1000003+vh_hs(n.c_str()); if(!e.empty()){ vh_fail("seed","seed %s, method %c, %s: %s\nselected: %s",s.c_str(),me,f->def.c_str(),e.c_str(),n.c_str()); bad=true; } }
      if(!bad){ string ms=VS[var][1]; long lim=*VS[var][2]?atoi(VS[var][2]+1):1000; long want=std::min<long>(lim,el.size()); set<string> used; for(auto&x:seen) used.insert(x.first.substr(0,x.first.size()-1)); long eff=ms.size(); if((long)used.size()!=want||(long)seen.size()!=want*eff) { vh_fail("seed","%zu seed symbols and %zu runs, expected %ld and %ld",used.size(),seen.size(),want,want*eff); bad=true; } for(auto&x:used) if(std::find(el.begin(),el.end(),x)==el.end()){ vh_fail("seed","%s is not an eligible seed symbol",x.c_str()); bad=true; } if(!bad&&*VS[var][2]) for(auto&x:used) for(auto&y:el) if(!used.count(y)&&(VS[var][2][0]=='m'?ff[y]>ff[x]:ff[y]<ff[x])){ vh_fail("sample","%s is sampled, but %s is better",x.c_str(),y.c_str()); bad=true; break; } }
      files.clear(); d=opendir("."); while(dirent*e=readdir(d)) if(!strncmp(e->d_name,"p_",2)) files.push_back(e->d_name); closedir(d); for(auto&f:files) unlink(f.c_str()); }
    vh_outcome(oh); vh_sample(); }
  if(chdir("/")) abort(); scratchDone(); return vh_done(); }
