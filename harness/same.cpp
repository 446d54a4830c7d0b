// same.cpp - C28: the same input and options give the same output.  --exe (own memory management) --sys (system memory) --preload det.so --cores file --rot n
#include "pools.hpp"
#include <map>
extern char**environ;
static const char*T[]={
 "cnf(a,axiom,f(f(X,Y),Z)=f(X,f(Y,Z))).\ncnf(b,axiom,f(X,Y)=f(Y,X)).\ncnf(c,axiom,f(X,i(X))=e).\ncnf(d,axiom,f(e,X)=X).\ncnf(g,negated_conjecture,i(f(a,b))!=f(i(a),i(b))).\n",
 "fof(a,axiom,![X]:(p(X)=>?[Y]:(q(X,Y)&p(Y)))).\nfof(b,axiom,![X,Y]:(q(X,Y)=>(r(Y)|q(Y,X)))).\nfof(c,axiom,![X]:(r(X)<=>(p(f(X))|~q(X,X)))).\nfof(d,hypothesis,p(a)|p(b)).\nfof(g,conjecture,?[X]:(r(X)&p(X))).\n",
 "cnf(a,axiom,~p(X,Y)|~p(Y,Z)|p(X,Z)).\ncnf(b,axiom,p(X,f(X))).\ncnf(c,axiom,~p(X,X)|q(X)|X=a).\ncnf(d,axiom,~q(X)|~q(Y)|X=Y).\ncnf(e,axiom,q(a)|q(b)|c!=d).\ncnf(h,hypothesis,p(f(f(X)),X)|c=d).\ncnf(g,negated_conjecture,~p(a,f(f(a)))|~q(f(X))).\n",
 "fof(a,axiom,![X,Y]:(m(X,Y)<=>?[Z]:(s(Z,X)&s(Z,Y)))).\nfof(b,axiom,![X]:?[Y]:(s(X,Y)&s(g(Y),h(X,Y)))).\nfof(c,axiom,![X,Y]:(h(X,Y)=h(Y,X)|g(X)=g(Y))).\nfof(d,axiom,![X]:g(g(X))=X).\nfof(e,conjecture,![X,Y]:?[Z]:(m(X,Z)&m(Z,g(Y)))).\n",
 "tff(t,type,s:$tType).\ntff(t1,type,k:s).\ntff(t2,type,h:(s*$i)>s).\ntff(t3,type,pp:(s*s)>$o).\ntff(a,axiom,![X:s,Y:$i]:(pp(X,h(X,Y))|h(X,Y)=k)).\ntff(b,axiom,![X:s]:~pp(X,X)).\ntff(c,conjecture,?[X:s,Y:$i]:pp(X,h(X,Y))|![X:s]:X=k).\n"};
static string norm(const string&o,const vector<string>&paths){ string r,l; auto flush=[&]{ bool skip=false; for(auto k:{" time","Time","resident","page","RSS"}) if(l.find(k)!=string::npos&&!l.empty()&&l[0]=='%') skip=true; if(!skip){ for(auto&p:paths) for(size_t i;(i=l.find(p))!=string::npos;) l.replace(i,p.size(),"FILE"); r+=l+"\n"; } l.clear(); }; for(char c:o) if(c=='\n') flush(); else l+=c; if(!l.empty()) flush(); return r; }
static string diff(const string&a,const string&b){ size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; size_t s=a.rfind('\n',i?i-1:0); s=s==string::npos?0:s+1; return a.substr(s,std::min<size_t>(160,a.find('\n',i)-s))+"  <>  "+b.substr(s,std::min<size_t>(160,b.find('\n',i)-s)); }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); string E=vh_arg("--exe"),Y=vh_arg("--sys"),D=vh_arg("--preload"); long rot=atol(vh_arg("--rot")); vector<pair<int,unsigned>> probs; for(int i=0;i<5;i++) probs.push_back({-1,i}); { FILE*f=fopen(vh_arg("--cores"),"r"); char nm[64]; unsigned m; char v; long c=0; while(fscanf(f,"%63s %u %c",nm,&m,&v)==3){ int pi=-1; for(size_t i=0;i<POOLS.size();i++) if(!strcmp(POOLS[i].name,nm)) pi=i; if(pi>=0) probs.push_back({pi,m}); } fclose(f); }
  string sub=g_scratch+"/other"; mkdir(sub.c_str(),0755);
  while(vh_next()){
    int pi=choose(probs.size()),ci=choose(CFGS.size()); if((pi>=5?(pi+ci)%rot:(pi+ci)%3)!=0) continue; if(!vh_mine()) continue; auto pm=probs[pi]; string txt; if(pm.first<0) txt=T[pm.second]; else { int n=0; for(int j=0;j<32;j++) if(pm.second>>j&1) txt+="cnf(c"+std::to_string(++n)+",axiom,("+POOLS[pm.first].cl[j]+")).\n"; }
    string f=g_scratch+"/p.p",g=sub+"/main.p",h=sub+"/q.p"; writeFile(f,txt); writeFile(h,txt); writeFile(g,"include('q.p').\n"); vh_note("%s%s",txt.c_str(),CFGS[ci].opts); vh_states++;
    vector<string> base{"-l","4","--proof-object","-C40","--generated-limit=800","--cpu-limit=60"}; for(auto&w:splitWs(CFGS[ci].opts)) base.push_back(w); bool par=string(CFGS[ci].opts).find("schedule")!=string::npos; if(par) continue;
    auto go=[&](const string&x,const string&file,const char*in){ vector<string> a{x}; a.insert(a.end(),base.begin(),base.end()); if(!file.empty()) a.push_back(file); vh_trans++; Res r=runProg(a,90,false,in?in:"/dev/null"); return r; };
    setenv("LD_PRELOAD",D.c_str(),1); vector<string> ps{g_scratch+"/other/q.p",g_scratch+"/p.p","<stdin>","other/q.p","q.p","p.p"};
    Res r0=go(E,f,nullptr); string n0=norm(r0.out,ps); if(r0.crashed()||r0.timeout){ unsetenv("LD_PRELOAD"); vh_fail("crash","the prover fails (exit %d)",r0.code()); continue; } bool bad=false; string what,dd;
    auto cmp=[&](const Res&r,const string&n,const char*w,const Res&q,const string&m){ if(bad) return; if(r.status!=q.status||n!=m){ bad=true; what=w; dd=diff(m,n); } };
    for(const char*fl:{"85","170"}){ setenv("VERIF_FILL",fl,1); Res r=go(E,f,nullptr); unsetenv("VERIF_FILL"); cmp(r,norm(r.out,ps),"the content of fresh memory",r0,n0); }
    { Res r=go(E,f,nullptr); cmp(r,norm(r.out,ps),"nothing",r0,n0); }
    Res s0=go(Y,f,nullptr); string m0=norm(s0.out,ps);
    { for(int i=0;i<40;i++) setenv(("VERIF_PAD"+std::to_string(i)).c_str(),"some text to move the stack around",1); setenv("LC_ALL","C.UTF-8",1); setenv("TPTP",sub.c_str(),1); unsetenv("HOME"); Res r=go(Y,f,nullptr); for(int i=0;i<40;i++) unsetenv(("VERIF_PAD"+std::to_string(i)).c_str()); unsetenv("LC_ALL"); unsetenv("TPTP"); cmp(r,norm(r.out,ps),"the environment",s0,m0); }
    { Res r=go(Y,"",f.c_str()); cmp(r,norm(r.out,ps),"reading from standard input",s0,m0); }
    { Res r=go(Y,g,nullptr); cmp(r,norm(r.out,ps),"reading by include",s0,m0); }
    { if(chdir(g_scratch.c_str())==0){ Res r=go(Y,"p.p",nullptr); cmp(r,norm(r.out,ps),"the working directory",s0,m0); if(chdir("/")){} } }
    { setenv("VERIF_FILL","85",1); Res r=go(Y,f,nullptr); unsetenv("VERIF_FILL"); cmp(r,norm(r.out,ps),"the content of fresh memory (system memory)",s0,m0); }
    { string o=g_scratch+"/out"; base.push_back("-o"); base.push_back(o); Res r=go(Y,f,nullptr); Res q=r; q.out=readFile(o); string m=norm(q.out,ps); string want; { string l; for(char c:m0+"") if(c=='\n'){ if(l.compare(0,3,"% (")) want+=l+"\n"; l.clear(); } else l+=c; } string have; { string l; for(char c:m) if(c=='\n'){ if(l.compare(0,3,"% (")) have+=l+"\n"; l.clear(); } else l+=c; } auto onlyCl=[&](const string&t){ string x,l; for(char c:t) if(c=='\n'){ if(l.compare(0,1,"%")||l.find("SZS")!=string::npos) x+=l+"\n"; l.clear(); } else l+=c; return x; }; cmp(r,onlyCl(have),"writing to a file",s0,onlyCl(want)); unlink(o.c_str()); }
    unsetenv("LD_PRELOAD"); if(bad) vh_fail("differs","the output depends on %s: %s",what.c_str(),dd.c_str()); vh_outcome(vh_hs(n0.c_str())); vh_sample(); }
  scratchDone(); return vh_done(); }
