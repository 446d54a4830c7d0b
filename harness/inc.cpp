// inc.cpp - C29: include directives.  Every small tree of files x selection list x place, read by the real prover (--print-formulas); reference: a direct reading of the TPTP rules.
//   --exe eprover   --mode sel|path|end   --k N longest selection list
#include "cli.hpp"
#include <map>
struct Item { int kind; string name, role, atom; string file; bool hasSel=false; vector<string> sel; bool bare=false; };   // kind 0 formula, 1 include
struct File { vector<Item> it; string tail; };
static std::map<string,File> FS;      // absolute path -> file
static string text(const File&f){ string s; for(auto&i:f.it){ if(i.kind==0) s+=(i.atom[0]=='c'?"cnf(":"fof(")+i.name+","+i.role+",("+i.atom+")).\n"; else { s+="include('"+i.file+"'"; if(i.hasSel){ s+=","; if(i.bare) s+=i.sel[0]; else { s+="["; for(size_t k=0;k<i.sel.size();k++) s+=(k?",":"")+i.sel[k]; s+="]"; } } s+=").\n"; } } return s+f.tail; }
static string norm(const string&p){ vector<string> st; string c; auto flush=[&]{ if(c==".."){ if(!st.empty()) st.pop_back(); } else if(!c.empty()&&c!=".") st.push_back(c); c.clear(); }; for(char ch:p){ if(ch=='/') flush(); else c+=ch; } flush(); string r; for(auto&s:st) r+="/"+s; return r; }
static string dirOf(const string&p){ return p.substr(0,p.rfind('/')); }
static string lookup(const string&name,const string&dir,const string&tptp){ if(name[0]=='/') return FS.count(norm(name))?norm(name):""; string a=norm(dir+"/"+name); if(FS.count(a)) return a; if(!tptp.empty()){ a=norm(tptp+"/"+name); if(FS.count(a)) return a; } return ""; }
struct F3 { string n,r,a; };
static bool readRef(const string&path,const string&tptp,vector<F3>&out,int depth=0){ if(depth>8) return false; File&f=FS[path]; for(auto&i:f.it){ if(i.kind==0){ out.push_back({i.name,i.role,i.atom}); continue; }
    string p=lookup(i.file,dirOf(path),tptp); if(p.empty()) return false; vector<F3> in; if(!readRef(p,tptp,in,depth+1)) return false;
    if(i.hasSel){ for(auto&s:i.sel){ bool ok=false; for(auto&x:in) if(x.n==s) ok=true; if(!ok) return false; } }
    for(auto&x:in){ bool t=!i.hasSel; if(i.hasSel) for(auto&s:i.sel) if(x.n==s) t=true; if(t) out.push_back(x); } }
  return f.tail.empty()||f.tail[0]=='%'||f.tail[0]=='\n'; }
static string exe;
static void mk(const string&p){ for(size_t i=1;i<p.size();i++) if(p[i]=='/') mkdir(p.substr(0,i).c_str(),0700); }
static void judge(const string&mainArg,const string&cwd,const string&mainPath,const string&tptp,bool viaStdin){
  string desc; for(auto&kv:FS){ mk(kv.first); writeFile(kv.first,text(kv.second)); desc+="--- "+kv.first.substr(g_scratch.size())+"\n"+text(kv.second); }
  mk(cwd+"/"); if(chdir(cwd.c_str())) abort(); if(tptp.empty()) unsetenv("TPTP"); else setenv("TPTP",tptp.c_str(),1);
  vh_note("cwd %s TPTP %s argument %s\n%s",cwd.c_str()+g_scratch.size(),tptp.empty()?"-":tptp.c_str()+g_scratch.size(),viaStdin?"- (standard input)":mainArg.c_str(),desc.c_str());
  vector<F3> exp; bool ok=readRef(viaStdin?cwd+"/zz":mainPath,tptp,exp);
  vector<string> a{exe,"-s","--tstp-format","--print-formulas"}; a.push_back(viaStdin?"-":mainArg); Res r=runProg(a,20,false,viaStdin?mainPath.c_str():"/dev/null"); vh_states++; vh_trans++;
  if(chdir("/")) abort(); for(auto&kv:FS) unlink(kv.first.c_str());
  if(r.timeout||r.crashed()){ vh_fail("crash","the prover %s",r.timeout?"does not end":"crashes"); return; }
  if(!ok){ if(r.code()==0) vh_fail("missing","a missing file, an unknown selected name or unreadable text is not an error\n%s",r.out.c_str()); vh_outcome(1); vh_sample(); return; }
  if(r.code()!=0){ vh_fail("rejected","correct input is rejected with status %d",r.code()); return; }
  string want; for(auto&x:exp) want+="fof("+x.n+", "+x.r+", "+x.a+").\n"; string got,line; for(char c:r.out){ if(c!='\n'){ line+=c; continue; } if(!line.empty()&&line[0]!='%') got+=line+"\n"; line.clear(); }
  // the order of formulas is the order of reading
  if(got!=want) vh_fail("formulas","formulas read:\n%sexpected:\n%s",got.c_str(),want.c_str());
  vh_outcome(vh_hs(want.c_str())); vh_sample(); }
static const char*ROLES[]={"axiom","hypothesis","conjecture","lemma"};
static int cnt; static Item fm(const string&n){ Item i; i.kind=0; i.name=n; i.role=ROLES[cnt%4]; i.atom=(cnt%5==4?"cp":"p")+std::to_string(cnt); if(i.atom[0]=='c') i.role="axiom"; cnt++; return i; }
static Item incl(const string&f){ Item i; i.kind=1; i.file=f; return i; }
static const char*SN[]={"a","b","'c d'","12","zz","d"}; static const int NSN=6;
static void chooseSel(Item&i,int k){ int m=choose(k+3); if(m==0) return; i.hasSel=true; if(m==1){ i.bare=true; i.sel.push_back(SN[choose(NSN)]); return; } for(int j=0;j<m-2;j++) i.sel.push_back(SN[choose(NSN)]); }
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); exe=vh_arg("--exe"); string mode=vh_arg("--mode"); int K=vh_arg("--k")?atoi(vh_arg("--k")):2; string R=g_scratch;
  while(vh_next()){ FS.clear(); cnt=0;
    if(mode=="sel"){ // main: formula, include x with selection, formula [, second include]; x: three named formulas and maybe an include of y
      Item ix=incl("x.ax"); chooseSel(ix,K); static const char*XN[][3]={{"a","b","'c d'"},{"a","a","12"},{"b","d","b"}}; int xv=choose(3); int where=choose(5); Item iy=incl("y.ax"); if(where<4) chooseSel(iy,1); int second=choose(3); int pos=choose(2);
      if(!vh_mine()) continue;
      File&m=FS[R+"/m.p"],&x=FS[R+"/x.ax"]; if(pos==0) m.it.push_back(fm("m1")); m.it.push_back(ix); m.it.push_back(fm("a")); if(second==1) m.it.push_back(incl("x.ax")); else if(second==2) m.it.push_back(ix);
      for(int j=0;j<3;j++){ if(where==j) x.it.push_back(iy); x.it.push_back(fm(XN[xv][j])); } if(where==3) x.it.push_back(iy);
      if(where<4){ File&y=FS[R+"/y.ax"]; y.it.push_back(fm("d")); y.it.push_back(fm("a")); y.it.push_back(fm("12")); }
      judge("m.p",R,R+"/m.p","",false); }
    else if(mode=="path"){ // where the files lie
      static const char*IN[]={"x.ax","s/x.ax","./x.ax","../q/x.ax","s/../x.ax","ABS"}; int in=choose(6); int how=choose(5); int tp=choose(3); int ex=choose(16); int nest=choose(4); int nex=nest?choose(8):0;
      if(!vh_mine()) continue;
      string cwd=R+"/q", T=R+"/T", main, arg; bool viaStdin=false; switch(how){ case 0: arg="m.p"; main=cwd+"/m.p"; break; case 1: arg="u/m.p"; main=cwd+"/u/m.p"; break; case 2: arg="../v/m.p"; main=R+"/v/m.p"; break; case 3: main=R+"/v/m.p"; arg=main; break; default: main=R+"/v/m.p"; viaStdin=true; cwd=R+"/q"; }
      string mdir=viaStdin?cwd:dirOf(main); string name=in==5?R+"/abs/x.ax":IN[in];
      File&m=FS[main]; m.it.push_back(fm("m1")); m.it.push_back(incl(name)); m.it.push_back(fm("m2"));
      static const char*NN[]={"","y.ax","s/y.ax","../y.ax"}; 
      vector<string> places{in==5?name:norm(mdir+"/"+name), norm(T+"/"+(in==5?"x.ax":name)), norm(cwd+"/"+(in==5?"x.ax":name)), norm(R+"/v/"+(in==5?"x.ax":name))};
      for(int b=0;b<4;b++) if((ex>>b&1)&&!FS.count(places[b])){ File&x=FS[places[b]]; x.it.push_back(fm("x"+std::to_string(b))); if(nest) x.it.push_back(incl(NN[nest])); x.it.push_back(fm("xe")); }
      if(nest) for(int b=0;b<3;b++) if(nex>>b&1){ string base=b==0?dirOf(lookup(name,mdir,tp?T:"").empty()?places[0]:lookup(name,mdir,tp?T:"")):b==1?T:mdir; string p=norm(base+"/"+NN[nest]); if(!FS.count(p)&&p.compare(0,R.size()+1,R+"/")==0) FS[p].it.push_back(fm("y"+std::to_string(b))); }
      // every directory that a name passes through exists
      for(auto d:{mdir+"/s/",T+"/s/",cwd+"/s/",R+"/v/s/",R+"/T/",R+"/abs/s/",cwd+"/u/",R+"/q/"}) mk(d); for(auto&kv:FS) mk(dirOf(kv.first)+"/s/");
      if(viaStdin){ FS[cwd+"/zz"]=FS[main]; }
      judge(arg,cwd,main,tp==0?"":tp==1?T:T+"/",viaStdin); }
    else { // what follows the last formula of an included file
      static const char*TAIL[]={"","% comment","%","\n\n","/* c */","x","fof(","fof(z,axiom,(p)","cnf(z,axiom,p)","(",".","include('x","fof(z,axiom,p).fof","'","\"","]","0"}; int t=choose(17); int lvl=choose(2); int hs=choose(2); int sel2=choose(2); if(!vh_mine()) continue;
      File&m=FS[R+"/m.p"],&x=FS[R+"/x.ax"]; m.it.push_back(fm("m1")); Item i=incl("x.ax"); if(hs){ i.hasSel=true; i.sel={"a"}; } m.it.push_back(i); m.it.push_back(fm("m2")); x.it.push_back(fm("a")); if(sel2) x.it.push_back(fm("b"));
      if(lvl){ x.it.push_back(incl("y.ax")); File&y=FS[R+"/y.ax"]; y.it.push_back(fm("a")); y.tail=TAIL[t]; } else x.tail=TAIL[t];
      if(t==4){ for(auto&kv:FS) if(kv.second.tail[0]=='/') kv.second.tail="\n"+kv.second.tail; }
      judge("m.p",R,R+"/m.p","",false); } }
  scratchDone(); return vh_done(); }
