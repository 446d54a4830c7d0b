// cnf.cpp - C04: clausification of every formula with n connectives and quantifiers, on the real prover (--cnf).
//  --n N       number of internal nodes      --pats a,b,..  leaf patterns     --nb  number of binary connectives used
//  --mode one|pair|ctx      --opts "i,j"  option sets
#include "cli.hpp"
#include "fofgen.hpp"
static const char*OPTS[]={"","--definitional-cnf=1","--definitional-cnf=0","--miniscope-limit=1","--miniscope-limit --definitional-cnf=2","--definitional-cnf=1 --miniscope-limit=0"};
static vector<int> ints(const char*s){ vector<int> v; while(s&&*s){ v.push_back(strtol(s,(char**)&s,10)); if(*s==',') s++; } return v; }
// formulas with a common subformula G in different polarity contexts
static const char*G[]={"(p(X)&q(X,Y))","(p(X)<=>q(Y,X))","?[Z]:(q(X,Z)&q(Z,Y))","((p(X)&r)|(q(X,Y)&p(Y)))","![Z]:(q(Z,X)=>p(Z))","(f(X)=Y<~>p(X))"};
static const char*CTX[]={"![X,Y]:(r|(G&p(Y)))","?[X,Y]:(~G|(r&p(X)))","![X]:?[Y]:(G<=>p(X))","?[Y]:![X]:((G=>r)&(p(X)|q(Y,Y)))","![Y,X]:~(r&G)","![X]:(p(X)|?[Y]:(G|q(Y,X)))","![Y]:?[X]:((G&r)|(~G&p(Y)))","![X,Y]:((G|(r&p(X)))&(r|(p(X)&p(Y))))"};
static string subst(const char*c,const string&g){ string r; for(;*c;c++) if(*c=='G') r+=g; else r+=*c; return r; }
static string swapXY(string s){ for(auto&ch:s) if(ch=='X') ch='Y'; else if(ch=='Y') ch='X'; return s; }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string e=vh_arg("--eprover"); string mode=vh_arg("--mode")?vh_arg("--mode"):"one"; int n=vh_arg("--n")?atoi(vh_arg("--n")):2; auto pats=ints(vh_arg("--pats")), opts=ints(vh_arg("--opts")); int nb=vh_arg("--nb")?atoi(vh_arg("--nb")):8;
  string file=g_scratch+"/p.p"; long undecided=0,clauses=0,withNew=0;
  while(vh_next()){
    vector<string> fs; vector<bool> conj;
    if(mode=="one"){ FofGen g; g.nb=nb; g.pat=pats[choose(pats.size())]; fs.push_back(g.gen(n)); conj.push_back(choose(2)); }
    else if(mode=="pair"){ string g=G[choose(6)]; fs.push_back(subst(CTX[choose(8)],g)); fs.push_back(subst(CTX[choose(8)],choose(2)?swapXY(g):g)); conj={false,choose(2)==1}; }
    else if(mode=="chain"){ static const char*L[]={"p(X)","q(X,Y)","r","p(Y)","q(Y,a)","p(f(X))","q(X,X)"}; static const char*Q[]={"![X]:?[Y]:","?[X]:![Y]:","![X,Y]:","?[X,Y]:"}; static const char*O[]={"<=>","&","|"};
      string q=Q[choose(4)]; bool left=choose(2); string s=L[left?0:6]; if(left) for(int i=1;i<7;i++) s="("+s+O[choose(3)]+L[i]+")"; else for(int i=5;i>=0;i--) s="("+string(L[i])+O[choose(3)]+s+")"; fs.push_back(q+s); conj.push_back(choose(2)); }
    else if(mode=="share"){ // the same subformula several times, in every combination of polarities
      static const char*SG[]={"(p(T)&r)","(p(T)&q(T,T)&r)","((p(T)&r)|(q(T,T)&s))","(p(T)|r)","(p(T)<=>r)","(p(T)=>(r&s))"}; static const char*SC[]={"(s1|G)","(~G|s1)","(G<=>s1)","(s1<=>G)","(G=>s1)","((G&s)|(s1&s2))","(G<~>s1)","~(G&s1)","((s1&s2)=>G)"}; static const char*J[]={"&","|"};
      string g=SG[choose(6)]; int how=choose(4); string t=how==0?"a":"X"; for(size_t i;(i=g.find('T'))!=string::npos;) g.replace(i,1,t); int nc=how==0?9:6; string A=subst(SC[choose(nc)],g),B=subst(SC[choose(nc)],g); for(auto&ch:B) if(ch=='1') ch='2'; else if(ch=='2') ch='1'; bool cj=choose(2);
      if(how==0){ fs={A,B}; conj={false,cj}; } else { fs.push_back(string(how==1?"![X]:":how==2?"?[X]:":"")+"("+A+J[choose(2)]+B+")"); if(how==3) fs[0]="![X]:(s|"+fs[0]+")"; conj.push_back(cj); } }
    else { // context around a formula with n nodes
      FofGen g; g.nb=4; g.x=g.y=true; g.pat=pats[choose(pats.size())]; string s="("+g.gen(n)+")"; fs.push_back(subst(CTX[choose(8)],s)); conj.push_back(choose(2)); }
    int oi=opts[choose(opts.size())];
    if(!vh_mine()) continue;
    string txt,orc; for(size_t i=0;i<fs.size();i++){ txt+="fof(f"+std::to_string(i)+","+(conj[i]?"conjecture":"axiom")+","+fs[i]+").\n"; orc+="fof(f,axiom,"+(conj[i]?"~("+fs[i]+")":fs[i])+").\n"; }
    writeFile(file,txt); vh_note("%s options: %s\n",txt.c_str(),OPTS[oi]);
    vector<string> a{e,"--cnf","--no-preprocessing","--no-eq-unfolding","-s","--tstp-format","--cpu-limit=20"}; for(auto&o:splitWs(OPTS[oi])) a.push_back(o); a.push_back(file);
    Res r=runProg(a,60); vh_trans++; vh_states++;
    if(r.crashed()||r.timeout||r.code()!=0){ vh_fail(r.crashed()?"crash":"fail","clausifier ended with code %d",r.code()); continue; }
    Sig sig; vector<Form> F,C; string err;
    try { for(auto&x:parseAll(sig,orc)) F.push_back({x.f,x.varSort}); } catch(ParseError&x){ vh_fail("harness","own formula not parsed: %s",x.what()); continue; }
    size_t nold=sig.syms.size();
    try { for(auto&x:parseAll(sig,r.out)) C.push_back({x.f,x.varSort}); } catch(ParseError&x){ vh_fail("unreadable","clauses cannot be read: %s\n%s",x.what(),r.out.c_str()); continue; }
    clauses+=C.size(); if(sig.syms.size()>nold) withNew++;
    vector<char> nw(sig.syms.size(),0); for(size_t i=nold;i<nw.size();i++) nw[i]=1;
    for(int d=1;d<=(n>=3||mode!="one"?2:3);d++){ string m;
      for(auto&f:F){ int q=entails(sig,C,f,d,40000,&m); if(q==0){ vh_fail("adds-models","on a domain of size %d the clauses do not imply the input; interpretation %s\n%s",d,m.c_str(),r.out.c_str()); goto next; } if(q<0) undecided++; }
      int q=expands(sig,F,C,nw,d,d==3?3000:30000); if(q==0){ vh_fail("loses-models","on a domain of size %d some model of the input cannot be extended to the clauses\n%s",d,r.out.c_str()); goto next; } if(q<0) undecided++; }
    vh_outcome(vh_hs(r.out.c_str()));
    vh_sample();
    next:;
  }
  vh_stat("clauses",clauses); vh_stat("with_new_symbols",withNew); vh_stat("undecided_checks",undecided);
  scratchDone(); return vh_done();
}
