// ground.cpp - C23: grounding tool.  --exe eground --k clauses
#include "pools.hpp"
#include <map>
#include <functional>
static const char*PL[]={"p(X)|q(X,Y)","~p(a)|q(b,X)","~q(X,b)","~q(X,Y)|p(Y)","~p(X)|~p(Y)|q(X,Y)","p(a)","~p(b)|r","~r|~p(X)","q(X,X)|r|s(X,Y,b)","~q(X,Y)|~q(Y,Z)|q(X,Z)","~s(X,Y,Z)|p(X)|q(Y,Z)","p(X)|~p(X)|q(a,Y)","~q(X,X)|p(b)","~s(X,a,X)","q(X,Y)|q(Y,X)|p(c)","~p(c)|~r|q(X,X)","p(X)|r","~q(a,X)|~p(X)|~r"};
static const char*OP[]={"","-c","-U","-r","-t","-U -r -t","-c -U -r -t","--split-tries=1","--split-tries=2 -c","--split-tries=1 -U -r -t","-i","-C"};
typedef vector<string> Cl;   // literals, "~" for negation
static string strip(string s){ string r; for(char c:s) if(c!=' ') r+=c; while(!r.empty()&&r[0]=='('&&r.back()==')'){ int d=0; bool w=true; for(size_t i=0;i<r.size();i++){ if(r[i]=='(') d++; if(r[i]==')'&&--d==0&&i+1<r.size()) w=false; } if(!w) break; r=r.substr(1,r.size()-2); } return r; }
static Cl split(const string&t){ Cl c; string l; for(char x:strip(t)+"|") if(x=='|'){ if(!l.empty()) c.push_back(l); l.clear(); } else l+=x; return c; }
static string inst(const string&l,const std::map<char,string>&m){ string r; for(char c:l){ auto i=m.find(c); if(i!=m.end()) r+=i->second; else r+=c; } return r; }
// plain DPLL
struct Sat { vector<vector<int>> cs; int n=0; vector<signed char> v; bool go(){ vector<int> trail; for(;;){ bool ch=false; for(auto&c:cs){ int u=0,lit=0; bool ok=false; for(int l:c){ int x=v[abs(l)]; if(x==0){ u++; lit=l; } else if((x>0)==(l>0)){ ok=true; break; } } if(ok) continue; if(u==0){ for(int t:trail) v[t]=0; return false; } if(u==1){ v[abs(lit)]=lit>0?1:-1; trail.push_back(abs(lit)); ch=true; } } if(!ch) break; } int b=0; for(int i=1;i<=n&&!b;i++) if(!v[i]){ bool used=false; for(auto&c:cs) for(int l:c) if(abs(l)==i) used=true; if(used) b=i; else continue; } if(!b) return true; for(int s:{1,-1}){ v[b]=s; if(go()) return true; v[b]=0; } for(int t:trail) v[t]=0; return false; } bool run(){ v.assign(n+1,0); return go(); } };
static bool solve(const vector<Cl>&cs){ std::map<string,int> id; Sat s; for(auto&c:cs){ vector<int> x; for(auto&l:c){ bool neg=l[0]=='~'; string a=neg?l.substr(1):l; if(a=="$true"||a=="$false"){ bool val=(a=="$true")!=neg; if(val){ x.clear(); x.push_back(0); break; } continue; } int&i=id[a]; if(!i) i=id.size(); x.push_back(neg?-i:i); } if(x.size()==1&&x[0]==0) continue; s.cs.push_back(x); } s.n=id.size(); return s.run(); }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string E=vh_arg("--exe"); int K=atoi(vh_arg("--k")); long rot=vh_arg("--rot")?atol(vh_arg("--rot")):1; int na=sizeof PL/sizeof*PL,no=sizeof OP/sizeof*OP;
  while(vh_next()){
    int k=1+choose(K); vector<int> ids; int lo=0; bool bad=false; for(int i=0;i<k;i++){ if(lo>=na){ bad=true; break; } int c=lo+choose(na-lo); ids.push_back(c); lo=c+1; } if(bad) continue; int o=choose(no); { long h=0; for(int x:ids) h=h*19+x; if((h+o)%rot) continue; } if(!vh_mine()) continue;
    string txt; set<string> cons; vector<Cl> in; long h=0; int n=0; for(int x:ids){ h=h*19+x; txt+="cnf(c"+std::to_string(++n)+",axiom,"+PL[x]+").\n"; in.push_back(split(PL[x])); for(const char*c=PL[x];*c;c++) if((*c=='a'||*c=='b'||*c=='c')&&(c[1]==','||c[1]==')')) cons.insert(string(1,*c)); } if(cons.empty()) cons.insert("#"); // one element
    // all ground instances
    vector<Cl> all; set<Cl> insts; for(auto&c:in){ set<char> vs; for(auto&l:c) for(char x:l) if(isupper((unsigned char)x)) vs.insert(x); vector<char> vv(vs.begin(),vs.end()); std::map<char,string> m; std::function<void(size_t)> rec=[&](size_t i){ if(i==vv.size()){ Cl g; for(auto&l:c) g.push_back(inst(l,m)); all.push_back(g); std::sort(g.begin(),g.end()); g.erase(std::unique(g.begin(),g.end()),g.end()); insts.insert(g); return; } for(auto&a:cons){ m[vv[i]]=a; rec(i+1); } }; rec(0); }
    bool sat=solve(all); string f=g_scratch+"/g.p"; writeFile(f,txt); vh_states++;
    { string op=OP[o]; vh_note("%s%s",txt.c_str(),op.c_str()); vector<string> a{E,"-s","--tstp-in","--tstp-out"}; for(auto&w:splitWs(op)) a.push_back(w); a.push_back(f); Res r=runProg(a,30,false); vh_trans++; if(r.crashed()||r.timeout||r.code()!=0){ vh_fail("crash","the tool %s (exit %d)",r.timeout?"does not end":"fails",r.code()); continue; }
      vector<Cl> out; bool okp=true; size_t p=0; while(p<r.out.size()){ size_t e=r.out.find('\n',p); if(e==string::npos) e=r.out.size(); string l=r.out.substr(p,e-p); p=e+1; if(l.compare(0,4,"cnf(")) continue; size_t c1=l.find(','),c2=l.find(',',c1+1),z=l.rfind(").") ; string b=l.substr(c2+1,z-c2-1); Cl c=split(b); if(c.size()==1&&c[0]=="$false") c.clear(); for(auto&x:c) for(size_t i=0;i<x.size();i++) if(isupper((unsigned char)x[i])&&(i==0||!(isalnum((unsigned char)x[i-1])||x[i-1]=='_'))) okp=false; out.push_back(c); }
      if(!okp){ vh_fail("ground","the output has a variable: %s",r.out.c_str()); continue; }
      // without constants the tool makes up one
      if(cons.count("#")){ for(auto&c:out) for(auto&l:c){ size_t b=l.find('('); if(b==string::npos) continue; string n=l.substr(0,b+1); bool in=false; for(size_t i=b+1;i<l.size();i++){ char ch=l[i]; if(ch==','||ch==')'){ if(in) n+='#'; n+=ch; in=false; } else in=true; } l=n; } }
      bool split=op.find("split")!=string::npos; bool os=solve(out); if(os!=sat){ vh_fail(sat?"sat":"unsat","the input is %ssatisfiable, the output [%s] is not: %s",sat?"":"un",op.c_str(),r.out.c_str()); continue; }
      if(!split) for(auto&c:out){ Cl s=c; std::sort(s.begin(),s.end()); s.erase(std::unique(s.begin(),s.end()),s.end()); bool plain=op.find("-U -r -t")!=string::npos; if(plain?!insts.count(s):false){ string t; for(auto&l:c) t+=l+" "; vh_fail("instance","the output clause %s is not an instance of the input",t.c_str()); break; } if(!plain){ auto q=all; for(auto&l:s){ q.push_back({l[0]=='~'?l.substr(1):"~"+l}); } if(solve(q)){ string t; for(auto&l:c) t+=l+" "; vh_fail("instance","the output clause %s does not follow from the input",t.c_str()); break; } } }
      // DIMACS form (the empty clause is written as two contradictory units)
      bool hasEmpty=false; for(auto&c:out) hasEmpty|=c.empty();
      vector<string> d{E,"-s","--tstp-in","-d"}; for(auto&w:splitWs(op)) d.push_back(w); bool fix=(h+o)%2; if(fix) d.push_back("-M"); d.push_back(f); Res q=runProg(d,30,false); vh_trans++; size_t pc=q.out.find("p cnf "); if(q.crashed()||q.code()!=0||pc==string::npos){ vh_fail("dimacs","no DIMACS output (exit %d)",q.code()); continue; } long mv=0,nc=0; int off=0; sscanf(q.out.c_str()+pc,"p cnf %ld %ld%n",&mv,&nc,&off); Sat S; const char*w=q.out.c_str()+pc+off; vector<int> cur; long mx=0; bool junk=false; while(*w){ while(*w==' '||*w=='\n') w++; if(!*w) break; if(*w=='%'||*w=='c'){ while(*w&&*w!='\n') w++; continue; } char*e; long x=strtol(w,&e,10); if(e==w){ junk=true; break; } w=e; if(x==0){ S.cs.push_back(cur); cur.clear(); } else { cur.push_back(x); mx=std::max(mx,labs(x)); } } if(junk||!cur.empty()||mx>mv||nc!=(long)S.cs.size()||(nc!=(long)out.size()&&!hasEmpty)){ vh_fail("dimacs","DIMACS output is not well formed (%ld clauses of %ld, %zu in the other form, largest atom %ld of %ld): %s",(long)S.cs.size(),nc,out.size(),mx,mv,q.out.c_str()); continue; } S.n=mx; if(S.run()!=sat){ vh_fail("dimacs","the DIMACS output [%s] does not have the satisfiability of the input: %s",op.c_str(),q.out.c_str()); continue; } if(fix&&mx!=mv&&mx) { vh_fail("dimacs","with -M the largest atom is %ld, not %ld",mv,mx); continue; }
      vh_outcome(vh_hs(r.out.c_str())); }
    vh_sample(); }
  scratchDone(); return vh_done(); }
