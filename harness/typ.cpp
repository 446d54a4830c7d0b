// typ.cpp - C31: typed input.  Every small typed problem is judged by a separate type checker and by finite models per sort, and run on the real prover.
//   --exe eprover  --mode lit|seq|sat  --k N  --opts "..."
#include "cli.hpp"
#include <map>
struct T { string h; vector<T> a; bool var=false; };
static T V(const char*n){ T t; t.h=n; t.var=true; return t; } static T C(const char*n){ T t; t.h=n; return t; } static T F(const char*n,vector<T> a){ T t; t.h=n; t.a=a; return t; }
static string str(const T&t){ string s=t.h; if(!t.a.empty()){ s+="("; for(size_t i=0;i<t.a.size();i++) s+=(i?",":"")+str(t.a[i]); s+=")"; } return s; }
struct Ty { vector<string> as; string r; bool operator==(const Ty&o)const{ return as==o.as&&r==o.r; } };
static string tyStr(const Ty&t){ if(t.as.empty()) return t.r; string s; for(size_t i=0;i<t.as.size();i++) s+=(i?"*":"")+t.as[i]; if(t.as.size()>1) s="("+s+")"; return s+">"+t.r; }
typedef std::map<std::pair<string,int>,Ty> Tab;
static bool ill; 
static string typeOf(const T&t,Tab&tab,const std::map<string,string>&env,bool pred){ if(t.var){ auto e=env.find(t.h); return e==env.end()?"$i":e->second; }
  vector<string> as; for(auto&x:t.a) as.push_back(typeOf(x,tab,env,false)); auto k=std::make_pair(t.h,(int)t.a.size()); auto it=tab.find(k); if(it==tab.end()){ Ty y; y.as=as; y.r=pred?"$o":"$i"; tab[k]=y; for(auto&x:as) if(x=="$o") ill=true; return y.r; }
  if(it->second.as!=as) ill=true; if(pred!=(it->second.r=="$o")) ill=true; return it->second.r; }
struct Lit { bool eq,neg; T l,r; };
struct Q { bool all; string v,s; };
struct Fm { vector<Q> q; vector<Lit> ls; };
static string str(const Fm&f,bool full=false){ string s; for(auto&q:f.q) s+=string(q.all?"!":"?")+"["+q.v+(q.s.empty()?(full?":$i":""):":"+q.s)+"]:"; s+="("; for(size_t i=0;i<f.ls.size();i++){ auto&l=f.ls[i]; s+=i?" | ":""; if(l.eq) s+=str(l.l)+(l.neg?"!=":"=")+str(l.r); else s+=(l.neg?"~":"")+str(l.l); } return s+")"; }
static void check(const Fm&f,Tab&tab){ std::map<string,string> env; for(auto&q:f.q) env[q.v]=q.s.empty()?"$i":q.s; for(auto&l:f.ls){ if(!l.eq) typeOf(l.l,tab,env,true); else { string a=typeOf(l.l,tab,env,false),b=typeOf(l.r,tab,env,false); if(a!=b) ill=true; } } }
static string exe; static vector<string> opts;
static bool verdictUnsat(const string&s){ return s=="Unsatisfiable"||s=="Theorem"||s=="ContradictoryAxioms"; }
static void judge(const string&text,bool illTyped,const Tab&tab,const vector<Fm>&fs,int maxs,bool exact){
  vh_note("%s %s\n",vh_arg("--opts")?vh_arg("--opts"):"",text.c_str()); string f=g_scratch+"/t.p"; writeFile(f,text); vector<string> a{exe,"-s","--tstp-format","--processed-clauses-limit=200"}; a.insert(a.end(),opts.begin(),opts.end()); a.push_back(f);
  Res r=runProg(a,20); vh_states++; vh_trans++; string s=szs(r.out);
  if(r.timeout||r.crashed()){ vh_fail("crash","the prover %s",r.timeout?"does not end":"crashes"); return; }
  if(illTyped){ if(!s.empty()||r.code()==0) vh_fail("accepted","ill-typed input is accepted: %s, status %d",s.c_str(),r.code()); vh_outcome(1); vh_sample(); return; }
  if(s.empty()){ vh_fail("rejected","well-typed input is rejected with status %d",r.code()); return; }
  // the meaning: finite models per sort
  string full; set<string> sorts; for(auto&kv:tab){ full+="tff(d,type,"+kv.first.first+":"+tyStr(kv.second)+").\n"; } string decl; for(auto&kv:tab){ for(auto&x:kv.second.as) sorts.insert(x); sorts.insert(kv.second.r); } sorts.insert("s"); sorts.insert("t");
  if(fs.empty()){ vh_outcome(2); vh_sample(); return; }
  int nsat=0; bool over=false; { Sig sig; string d; for(auto&x:sorts) if(x[0]!='$') d+="tff(x,type,"+x+":$tType).\n"; for(auto&kv:tab) d+="tff(d,type,"+kv.first.first+std::to_string(kv.first.second)+":"+tyStr(kv.second)+").\n";
    std::function<T(const T&)> ren=[&](const T&t){ T u=t; if(!t.var) u.h+=std::to_string(t.a.size()); for(auto&x:u.a) x=ren(x); return u; };
    for(auto fm:fs){ for(auto&l:fm.ls){ l.l=ren(l.l); if(l.eq) l.r=ren(l.r); } d+="tff(f,axiom,"+str(fm,true)+").\n"; } auto v=parseAll(sig,d); vector<Form> fo; for(auto&x:v) fo.push_back({x.f,x.varSort});
    // only the sorts that occur matter; enumerate sizes of the user sorts and $i
    int ns=sig.sorts.size(); vector<int> sz(ns,1); int tot=1; vector<int> us; for(int i=0;i<ns;i++) if(sig.sorts[i]=="$i"||sig.sorts[i][0]!='$') us.push_back(i); for(size_t i=0;i<us.size();i++) tot*=maxs; for(int c=0;c<tot&&!nsat;c++){ int y=c; for(int i:us){ sz[i]=1+y%maxs; y/=maxs; } int q=satisfiableSz(sig,fo,sz,100000); if(q==1) nsat=1; if(q<0) over=true; } }
  if(nsat&&verdictUnsat(s)) vh_fail("types","%s reported, but there is a model that respects the types",s.c_str());
  if(exact&&!nsat&&!over&&(s=="Satisfiable"||s=="CounterSatisfiable")) vh_fail("types","%s reported, but no interpretation that respects the types satisfies the input",s.c_str());
  vh_outcome(vh_hs((s+(nsat?"+":"-")).c_str())); vh_sample(); }
static string declText(const char*n,const Ty&t){ return string("tff(d_")+n+",type,"+n+":"+tyStr(t)+").\n"; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); exe=vh_arg("--exe"); string mode=vh_arg("--mode"); if(vh_arg("--opts")) opts=splitWs(vh_arg("--opts")); int K=vh_arg("--k")?atoi(vh_arg("--k")):2; int thin=vh_arg("--thin")?atoi(vh_arg("--thin")):1;
  const string S="tff(d1,type,s:$tType).\ntff(d2,type,t:$tType).\n";
  T X=V("X"),Y=V("Y"),c=C("c"),d=C("d"),e=C("e"); vector<T> TT{X,c,d,F("f",{X}),F("f",{c}),F("f",{F("f",{c})}),F("f",{c,d}),F("f",{X,c})};
  static const vector<Ty> DC{{{},""},{{},"s"},{{},"t"},{{},"$i"}},DF{{{},""},{{"s"},"s"},{{"s"},"t"},{{"s","t"},"s"},{{"$i"},"s"}},DP{{{},""},{{"s"},"$o"},{{"s","t"},"$o"},{{},"$o"},{{"$i"},"$o"}};
  while(vh_next()){
    if(mode=="lit"){ int ic=choose(4),id=choose(3),jf=choose(5),ip=choose(5),iq=choose(5); int kind=choose(4); Fm f; if(iq==1) f.q={{true,"X","s"}}; if(iq==2) f.q={{false,"X","t"}}; if(iq==3) f.q={{true,"X",""}}; if(iq==4) f.q={{true,"Y","s"},{false,"X","t"}};
      Lit l; l.neg=choose(2); l.eq=false; bool usesX=iq!=0; if(kind==0) l.l=F("p",{TT[choose(8)]}); else if(kind==1){ T a=TT[choose(5)],b=iq==4?(choose(2)?Y:X):TT[choose(5)]; l.l=F("p",{a,b}); } else if(kind==2){ l.eq=true; l.l=TT[choose(8)]; l.r=iq==4&&choose(2)?Y:TT[choose(8)]; } else l.l=C("p"); f.ls={l};
      string ft=str(f); bool hasX=str(Fm{{},{l}}).find('X')!=string::npos; if(hasX!=usesX&&iq!=4) continue; if(!vh_mine()) continue; if(vh_hs(ft.c_str())%thin!=(unsigned)((ic+id*4+jf*12+ip*60)%thin)) continue;
      Tab tab; string txt=S; if(ic){ tab[{"c",0}]=DC[ic]; txt+=declText("c",DC[ic]); } if(id){ tab[{"d",0}]=DC[id]; txt+=declText("d",DC[id]); } if(jf){ tab[{"f",(int)DF[jf].as.size()}]=DF[jf]; txt+=declText("f",DF[jf]); } if(ip){ tab[{"p",(int)DP[ip].as.size()}]=DP[ip]; txt+=declText("p",DP[ip]); }
      ill=false; check(f,tab); txt+="tff(a,axiom,"+ft+").\n"; judge(txt,ill,tab,{f},2,false); }
    else if(mode=="seq"){ // declarations and uses in every order
      struct St{ int k; const char*n; Ty t; Fm f; }; static vector<St> P; if(P.empty()){ auto D=[&](const char*n,Ty t){ P.push_back({0,n,t,{}}); }; auto U=[&](Fm f){ P.push_back({1,"",{},f}); };
        D("c",{{},"s"}); D("c",{{},"t"}); D("c",{{},"$i"}); D("f",{{"s"},"t"}); D("f",{{"s"},"s"}); D("f",{{"s","s"},"t"}); D("p",{{"s"},"$o"}); D("p",{{"t"},"$o"}); D("p",{{"$i"},"$o"}); D("p",{{"s","s"},"$o"}); D("f",{{"$i"},"$i"});
        U({{},{{false,false,F("p",{c}),{}}}}); U({{},{{true,false,F("f",{c}),c}}}); U({{{true,"X","s"}},{{false,true,F("p",{X}),{}}}}); U({{{false,"X","t"}},{{false,false,F("p",{F("f",{X})}),{}}}}); U({{},{{false,true,F("p",{c,c}),{}}}}); U({{{true,"X",""}},{{true,true,F("f",{X}),X}}}); U({{{true,"X","s"}},{{true,false,F("f",{X}),X}}}); }
      int n=P.size(); vector<int> ix; for(int i=0;i<K;i++) ix.push_back(choose(n)); if(!vh_mine()) continue; Tab tab; ill=false; string txt; vector<Fm> fs; for(int i:ix){ St&s=P[i]; if(s.k==0){ auto k=std::make_pair(string(s.n),(int)s.t.as.size()); auto it=tab.find(k); if(it!=tab.end()&&!(it->second==s.t)) ill=true; else tab[k]=s.t; txt+=declText(s.n,s.t); } else { check(s.f,tab); fs.push_back(s.f); txt+="tff(a,axiom,"+str(s.f)+").\n"; } }
      if(vh_hs(txt.c_str())%thin) continue; judge(txt,ill,tab,fs,2,false); }
    else if(mode=="scope"){ // the same variable name with several sorts
      static const char*TY[]={"",":s",":t"}; static const char*PN[]={"pi(X)","ps(X)","pt(X)"}; int sep=choose(3); int t1=choose(3),t2=choose(3),l1=choose(3),l2=choose(3),l3=choose(3),q=choose(4); if(!vh_mine()) continue;
      string A=string(q&1?"?":"!")+"[X"+TY[t1]+"]:",B=string(q&2?"?":"!")+"[X"+TY[t2]+"]:"; string txt=S+"tff(d3,type,pi:$i>$o).\ntff(d4,type,ps:s>$o).\ntff(d5,type,pt:t>$o).\n"; bool bad=l2!=t2;
      if(sep==0){ txt+="tff(a,axiom,"+A+"("+PN[l1]+"&("+B+PN[l2]+")&"+PN[l3]+")).\n"; bad=bad||l1!=t1||l3!=t1; } else if(sep==1){ txt+="tff(a,axiom,("+A+PN[l1]+")&("+B+PN[l2]+")&("+A+PN[l3]+")).\n"; bad=bad||l1!=t1||l3!=t1; } else { txt+="tff(a,axiom,"+A+PN[l1]+").\ntff(b,axiom,"+B+PN[l2]+").\ntff(c,axiom,"+A+PN[l3]+").\n"; bad=bad||l1!=t1||l3!=t1; }
      judge(txt,bad,Tab(),{},1,false); }
    else { // verdicts of well-typed problems: s: a,b  t: d,e  f:s>t  p:s>$o  q:(s*t)>$o
      static Tab tab; static vector<Fm> P; static string D; T a=C("a"),b=C("b"); if(P.empty()){ tab[{"a",0}]={{},"s"}; tab[{"b",0}]={{},"s"}; tab[{"d",0}]={{},"t"}; tab[{"e",0}]={{},"t"}; tab[{"f",1}]={{"s"},"t"}; tab[{"p",1}]={{"s"},"$o"}; tab[{"q",2}]={{"s","t"},"$o"}; D=S; for(auto&kv:tab) D+=declText(kv.first.first.c_str(),kv.second);
        auto A=[&](T l,bool n=false){ return Lit{false,n,l,{}}; }; auto E=[&](T l,T r,bool n=false){ return Lit{true,n,l,r}; }; vector<Q> qs{{true,"X","s"}},qt{{true,"Y","t"}},qst{{true,"X","s"},{true,"Y","t"}}; T Z=V("Z"),W=V("W");
        P={ {{{true,"X","s"},{true,"Z","s"}},{E(X,Z)}}, {{{true,"Y","t"},{true,"W","t"}},{E(Y,W)}}, {{},{E(a,b,true)}}, {{},{E(d,e,true)}}, {qs,{E(X,a),E(X,b)}}, {qt,{E(Y,d)}}, {qs,{E(F("f",{X}),d)}}, {{{true,"X","s"},{true,"Z","s"}},{E(F("f",{X}),F("f",{Z}),true),E(X,Z)}}, {qt,{E(Y,F("f",{a}))}}, {{},{E(F("f",{a}),F("f",{b}),true)}}, {qs,{A(F("p",{X}))}}, {{},{A(F("p",{a}),true)}}, {{},{A(F("p",{b}))}}, {qst,{A(F("q",{X,Y}))}}, {qs,{A(F("q",{X,F("f",{X})}),true)}}, {qt,{A(F("q",{a,Y})),E(Y,d)}}, {{},{A(F("q",{a,e}),true)}}, {{{false,"X","s"}},{A(F("p",{X}),true)}}, {{{true,"X","s"},{false,"Y","t"}},{E(F("f",{X}),Y,true)}}, {{{true,"X","s"},{false,"Z","s"}},{E(X,Z,true)}} }; }
      int n=P.size(); int k=1+choose(K); vector<int> ix; int last=-1; for(int i=0;i<k;i++){ int j=choose(n); if(j<=last){ ix.clear(); break; } last=j; ix.push_back(j); } if(ix.empty()) continue; if(!vh_mine()) continue; unsigned h=0; for(int i:ix) h=h*21+i; if(h%thin) continue; string txt=D; vector<Fm> fs; for(int i:ix){ txt+="tff(a"+std::to_string(i)+",axiom,"+str(P[i])+").\n"; fs.push_back(P[i]); }
      judge(txt,false,tab,fs,3,true); } }
  scratchDone(); return vh_done(); }
