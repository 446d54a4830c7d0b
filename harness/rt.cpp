// rt.cpp - C16: everything E reads and prints again. Both directions are the real parser and printers (rt_shim.c).
//  --mode fof|min|clause|name|tff|lop|mix   --n internal nodes   --pats leaf patterns   --k literals
#include "vh.h"
#include "sem.hpp"
#include "fofgen.hpp"
extern "C" { void rt_init(void); char*rt_run(const char*,int,int,int,long*,int*); int rt_same(const char*); }
enum { LOP, OLD, TSTP };
static vector<int> ints(const char*s){ vector<int> v; while(s&&*s){ v.push_back(strtol(s,(char**)&s,10)); if(*s==',') s++; } return v; }
static long g_cnt; static int g_end;
static string rt(const string&t,int i,int o,int mode){ char*r=rt_run(t.c_str(),i,o,mode,&g_cnt,&g_end); string s=r; free(r); vh_trans++; return s; }
// running numbers in generated names are not part of the text
static string norm(const string&s){ string r; for(size_t i=0;i<s.size();){ if((s[i]=='c'||s[i]=='i')&&s.compare(i+1,1,"_")==0&&i+2<s.size()&&isdigit((unsigned char)s[i+2])&&(i==0||s[i-1]=='(')){ r+="nm"; while(i<s.size()&&(isalnum((unsigned char)s[i])||s[i]=='_'||s[i]=='-')) i++; } else r+=s[i++]; } return r; }
static string alpha(const string&s){ string r; map<string,string> m; bool q=false; char qc=0; for(size_t i=0;i<s.size();){ char c=s[i]; if(q){ r+=c; if(c=='\\'&&i+1<s.size()) r+=s[++i]; else if(c==qc) q=false; i++; continue; } if(c=='\''||c=='"'){ q=true; qc=c; r+=c; i++; continue; } if(c=='\n') m.clear();
  if(isupper((unsigned char)c)&&(i==0||!(isalnum((unsigned char)s[i-1])||s[i-1]=='_'||s[i-1]=='$'))){ size_t b=i; while(i<s.size()&&(isalnum((unsigned char)s[i])||s[i]=='_')) i++; string v=s.substr(b,i-b); if(!m.count(v)){ string nv="V"+std::to_string(m.size()); m[v]=nv; } r+=m[v]; } else { r+=c; i++; } } return r; }
struct MM { string full,min; int k; };   // k: 0 unitary, 2 and-chain, 3 or-chain, 4 other
struct MinGen { int pat=0,leaf=0,nb=8; bool x=false,y=false;
  MM gen(int n){ if(n==0){ FofGen g; g.pat=pat; g.leaf=leaf++; g.x=x; g.y=y; string a=g.atom(); return {"("+a+")",a,0}; }
    int c=choose(5+nb);
    if(c==0){ MM m=gen(n-1); return {"(~"+m.full+")",m.k?"~("+m.min+")":"~"+m.min,0}; }
    if(c<5){ bool q=c&1,vx=c<3; bool&v=vx?x:y; bool old=v; v=true; MM m=gen(n-1); v=old; string h=string(q?"!":"?")+(vx?"[X]:":"[Y]:"); return {"("+h+m.full+")",m.k?h+"("+m.min+")":h+m.min,0}; }
    int l=choose(n); MM a=gen(l),b=gen(n-1-l); int k=c==5?2:c==6?3:4; string op=BOPS[c-5];
    string ls=(a.k==0||(k<4&&a.k==k))?a.min:"("+a.min+")", rs=b.k==0?b.min:"("+b.min+")";
    return {"("+a.full+op+b.full+")",ls+op+rs,k}; } };
static string fmtName(int f){ return f==LOP?"LOP":f==OLD?"old TPTP":"TSTP"; }
// meaning of two TSTP texts compared on small domains, formula by formula
static bool sameMeaning(const string&a,const string&b,const char*what){
  Sig sig; vector<Ann> A,B; try { A=parseAll(sig,a); B=parseAll(sig,b); } catch(ParseError&e){ vh_fail("unreadable","%s: printed text cannot be read: %s\n%s",what,e.what(),b.c_str()); return false; }
  if(A.size()!=B.size()){ vh_fail("count","%s: %zu formulas became %zu\n%s",what,A.size(),B.size(),b.c_str()); return false; }
  for(size_t i=0;i<A.size();i++){ Form x{A[i].f,A[i].varSort},y{B[i].f,B[i].varSort};
    for(int d=1;d<=2;d++){ string m; if(entails(sig,{x},y,d,60000,&m)==0||entails(sig,{y},x,d,60000,&m)==0){ vh_fail("meaning","%s: the printed text means something else (domain %d, %s)\n%s",what,d,m.c_str(),b.c_str()); return false; } } }
  return true; }
static string role(const string&t){ size_t p=t.find(','); size_t q=t.find(',',p+1); string r=t.substr(p+1,q-p-1); while(!r.empty()&&r[0]==' ') r=r.substr(1); return r; }
static bool fix(const string&src,int f,int mode,string*out,const char*what){ // print is a fixed point of parse and print
  string p1=rt(src,f,f,mode); if(!g_end){ vh_fail("rejected","%s input only read up to some point (%ld formulas)",fmtName(f).c_str(),g_cnt); return false; }
  long c=g_cnt; string p2=rt(p1,f,f,mode); if(!g_end||g_cnt<c){ vh_fail("unreadable","%s printed in %s is not read back\n%s",what,fmtName(f).c_str(),p1.c_str()); return false; }
  string p3=rt(p2,f,f,mode); if(alpha(norm(p3))!=alpha(norm(p2))){ vh_fail("unstable","%s printed in %s changes again and again when read and printed\n%s---\n%s",what,fmtName(f).c_str(),p2.c_str(),p3.c_str()); return false; }
  if(f==TSTP&&alpha(norm(p1))!=alpha(norm(p2))&&!sameMeaning(p1,p2,what)) return false;
  *out=p1; return true; }
static const char*LITS[]={"p(X)","~p(Y)","q(X,f(Y))","~q(a,X)","X=Y","f(X)!=a","r","~r","$false","$true","f(f(X))=g(X,Y)","~q(f(a),b)"};
static string oldLit(string s){ string sgn="++"; if(s[0]=='~'){ sgn="--"; s=s.substr(1); } size_t e; if((e=s.find("!="))!=string::npos) return "--equal("+s.substr(0,e)+","+s.substr(e+2)+")"; if((e=s.find("="))!=string::npos) return sgn+"equal("+s.substr(0,e)+","+s.substr(e+1)+")"; return sgn+s; }
static string lopCl(const vector<string>&l,bool goal){ string h,b; for(auto&s:l){ bool neg=s[0]=='~'; size_t e=s.find("!="); if(neg) b+=(b.empty()?"":",")+s.substr(1); else if(e!=string::npos) b+=(b.empty()?"":",")+s.substr(0,e)+"="+s.substr(e+2); else h+=(h.empty()?"":";")+s; } return h+(goal&&h.empty()?"?-":"<-")+b+"."; }
static const char*NAMES[]={"a","b2","c_d","'a'","'X1'","'a b'","'it\\'s'","'back\\\\slash'","'42'","'$true'","'a,b'","'%no comment'","'/*'","'='","'\"q\"'","'p'","'Quoted(x)'","''","'-1'","'_u'","'fof'","cnf","include","equal","'equal'","file"};
// names and the symbol they denote (terms with equal second entry are the same symbol)
static const struct { const char*t,*s; } IDS[]={{"a","a"},{"'a'","a"},{"A1","?"},{"'A1'","'A1'"},{"1","1"},{"'1'","'1'"},{"\"a\"","dq a"},{"'\"a\"'","q dq a"},{"'a b'","'a b'"},{"'ab'","ab"},{"ab","ab"},{"'it\\'s'","its1"},{"'it\\\\s'","its2"},{"'it\\\\\\'s'","its3"},{"'its'","its"},{"\"x\\\"y\"","dq1"},{"\"x\\\\y\"","dq2"},{"-1","-1"},{"+1","1"},{"01","1"},{"-0","0"},{"0","0"},{"1.0","1.0"},{"1.00","1.0"},{"10.0e-1","1.0"},{"1/1","1/1"},{"2/2","1/1"},{"2/4","1/2"},{"1/2","1/2"},{"'$true'","'$true'"},{"'_x'","'_x'"},{"'$x'","'$x'"},{"a_b","a_b"},{"'a_b'","a_b"},{"'a-b'","'a-b'"},{"f(a)","f(a)"},{"'f'('a')","f(a)"},{"'F'(a)","'F'(a)"},{"'f(a)'","'f(a)'"}};
int main(int argc,char**argv){
  vh_init(argc,argv); rt_init(); string mode=vh_arg("--mode")?vh_arg("--mode"):"fof"; int n=vh_arg("--n")?atoi(vh_arg("--n")):2, k=vh_arg("--k")?atoi(vh_arg("--k")):2; auto pats=ints(vh_arg("--pats")); int nb=vh_arg("--nb")?atoi(vh_arg("--nb")):8; if(pats.empty()) pats={0,1,2,3,4,5};
  static const char*FR[]={"axiom","conjecture","hypothesis","negated_conjecture","lemma","question","definition","assumption","theorem","plain"}; static const char*FRX[]={"axiom","conjecture","hypothesis","negated_conjecture","lemma","question","axiom","negated_conjecture","axiom","plain"};
  while(vh_next()){
    if(mode=="fof"){ FofGen g; g.nb=nb; g.pat=pats[choose(pats.size())]; string s=g.gen(n); int r=choose(vh_arg("--roles")?atoi(vh_arg("--roles")):2); if(!vh_mine()) continue; vh_states++;
      string src=string("fof(n1,")+FR[r]+","+s+").\n"; vh_note("%s",src.c_str()); string p,q;
      if(!fix(src,TSTP,4,&p,"formula")) continue; if(role(p)!=FRX[r]) { vh_fail("role","role %s printed as %s",FR[r],role(p).c_str()); continue; }
      if(p.compare(0,7,"fof(n1,")){ vh_fail("name","name changed\n%s",p.c_str()); continue; }
      if(!sameMeaning(src,p,"TSTP")) continue;
      // through the old format and back
      string o=rt(src,TSTP,OLD,4), back=rt(o,OLD,TSTP,4); if(!g_end||g_cnt!=1){ vh_fail("unreadable","old TPTP text is not read back\n%s",o.c_str()); continue; }
      if(!sameMeaning(src,back,"old TPTP")) continue; if(r<4&&role(back)!=FRX[r]){ vh_fail("role","old TPTP turns %s into %s\n%s",FR[r],role(back).c_str(),o.c_str()); continue; }
      if(!fix(o,OLD,4,&q,"formula")) continue; vh_outcome(vh_hs(p.c_str())); vh_sample(); }
    else if(mode=="min"){ MinGen g; g.nb=nb; g.pat=pats[choose(pats.size())]; MM m=g.gen(n); int sp=choose(2); if(!vh_mine()) continue; vh_states++;
      string mn=m.min; if(sp){ string t; for(size_t i=0;i<mn.size();i++){ t+=mn[i]; if(strchr("()[],:&|",mn[i])) t+=i%3?" ":" /* c ) */ % ]:\n"; } mn=t; }
      string a="fof(n1,axiom,"+m.full+").\n", b="fof(n1,axiom,"+mn+").\n"; vh_note("%s%s",a.c_str(),b.c_str()); string pa=rt(a,TSTP,TSTP,4); bool e1=g_end; string pb=rt(b,TSTP,TSTP,4);
      if(!e1||!g_end){ vh_fail("rejected","not read to the end"); continue; } if(pa!=pb){ vh_fail("parentheses","the same formula with fewer parentheses is understood differently\n%s%s",pa.c_str(),pb.c_str()); continue; } vh_outcome(vh_hs(pa.c_str())); vh_sample(); }
    else if(mode=="clause"){ int len=choose(k+1); vector<string> l; for(int i=0;i<len;i++) l.push_back(LITS[choose(12)]); int r=choose(3); if(!vh_mine()) continue; vh_states++;
      static const char*CR[]={"axiom","negated_conjecture","hypothesis"}; static const char*OR_[]={"axiom","conjecture","hypothesis"};
      string c,o; for(auto&s:l){ c+=(c.empty()?"":"|")+s; o+=(o.empty()?"":",")+oldLit(s); } if(len==0) c="$false";
      string src=string("cnf(n1,")+CR[r]+",("+c+")).\n", old=string("input_clause(n1,")+OR_[r]+",["+o+"]).\n", lop=lopCl(l,r==1)+"\n"; vh_note("%s%s%s",src.c_str(),old.c_str(),lop.c_str()); string p,q,w;
      if(!fix(src,TSTP,0,&p,"clause")) continue; if(role(p)!=CR[r]){ vh_fail("role","role %s printed as %s",CR[r],role(p).c_str()); continue; } if(!sameMeaning(src,p,"cnf")) continue;
      string pf=rt(src,TSTP,TSTP,8); if(!sameMeaning(src,pf,"clause as formula")) continue;
      if(!fix(old,OLD,0,&q,"clause")) continue; string oo=rt(old,OLD,TSTP,0); if(!sameMeaning(src,oo,"the old TPTP clause")) continue; if(role(oo)!=CR[r]){ vh_fail("role","old role %s is understood as %s",OR_[r],role(oo).c_str()); continue; }
      string po=rt(src,TSTP,OLD,0), pob=rt(po,OLD,TSTP,0); if(!sameMeaning(src,pob,"clause through old TPTP")) continue; if(role(pob)!=CR[r]){ vh_fail("role","through old TPTP %s becomes %s",CR[r],role(pob).c_str()); continue; }
      if(!fix(lop,LOP,0,&w,"clause")) continue; string lo=rt(lop,LOP,TSTP,0); if(!sameMeaning(src,lo,"the LOP clause")) continue;
      string pl=rt(src,TSTP,LOP,0), plb=rt(pl,LOP,TSTP,0); if(!sameMeaning(src,plb,"clause through LOP")) continue; vh_outcome(vh_hs(p.c_str())); vh_sample(); }
    else if(mode=="name"){ const int NN=sizeof NAMES/sizeof*NAMES; static const char*T[]={"fof(n1,axiom,(@(X0)|~q)).","fof(n1,axiom,![V]:(p(@)&V=@)).","fof(n1,axiom,![V]:r(@(V,@),b)).","fof(n1,axiom,@).","fof(@,axiom,p(a)).","cnf(n1,axiom,(@(X)|p(@)|X!=h(@,X))).","cnf(@,axiom,p(a)).","fof(n1,axiom,(@<=>~@))."};
      int x=choose(NN),y=choose(NN),t=choose(8); if(!vh_mine()) continue; if(x!=y&&!strchr(strchr(T[t],'@')+1,'@')) continue; vh_states++; string src; int u=0; for(const char*c=T[t];*c;c++) if(*c=='@') src+=(t==5?u++>0:u++%2)?NAMES[y]:NAMES[x]; else src+=*c;  if(src.find("X0")!=string::npos) src.replace(src.find("X0"),2,"a"); src+="\n";
      // the same symbol may not be used with two kinds in one formula
      if((t==5||t==7||t==0||t==1)&&0) continue;
      vh_note("%s",src.c_str()); bool sameSym=x==y||(x<2&&0); string nx=NAMES[x],ny=NAMES[y]; auto pl=[](string s){ if(s.size()>2&&s[0]=='\''){ string in=s.substr(1,s.size()-2); bool ok=islower((unsigned char)in[0]); for(char c:in) if(!(isalnum((unsigned char)c)||c=='_')) ok=false; if(ok) return in; } return s; }; sameSym=pl(nx)==pl(ny);
      if((t==5||t==2||t==0)&&sameSym) continue; if(pl(nx)=="p"&&(t==1||t==5||t==0)) continue; if(pl(ny)=="p"&&(t==1||t==5)) continue; if((pl(nx)=="equal"||pl(ny)=="equal")) continue; 
      string p; if(!fix(src,TSTP,4,&p,"names")) continue; if(!sameMeaning(src,p,"names")) continue;
      if(t!=4&&t!=6){ string p0=rt(src,TSTP,TSTP,0),p1=rt(p0,TSTP,TSTP,0); if(alpha(norm(p0))!=alpha(norm(p1))||!g_end){ vh_fail("unstable","names\n%s%s",p0.c_str(),p1.c_str()); continue; } }
      vh_outcome(vh_hs(p.c_str())); vh_sample(); }
    else if(mode=="ident"){ const int NI=sizeof IDS/sizeof*IDS; int x=choose(NI),y=choose(NI); if(!vh_mine()) continue; if(IDS[x].s[0]=='?'||IDS[y].s[0]=='?') continue; vh_states++; vh_trans++;
      string src=string("fof(n1,axiom,q(")+IDS[x].t+","+IDS[y].t+")).\n"; vh_note("%s",src.c_str()); int r=rt_same(src.c_str()), want=!strcmp(IDS[x].s,IDS[y].s); if(r!=want){ vh_fail("identity","%s and %s are treated as %s",IDS[x].t,IDS[y].t,r?"the same":"different"); continue; } vh_outcome(vh_hs(src.c_str())); vh_sample(); }
    else { // typed formulas
      static const char*D="tff(d1,type,s:$tType).\ntff(d2,type,t:$tType).\ntff(d3,type,c:s).\ntff(d4,type,f:s>t).\ntff(d5,type,g:(s*t)>s).\ntff(d6,type,p:s>$o).\ntff(d7,type,q:(t*$i)>$o).\ntff(d8,type,z:$o).\ntff(d9,type,m:$i).\n";
      static const char*LF[]={"p(A)","q(f(A),I)","A=c","f(A)=B","I!=m","z","q(B,m)","g(A,B)=A"}; static const char*Q[]={"![A:s,B:t,I:$i]:","?[I:$i]:![A:s]:?[B:t]:","![B:t]:?[I:$i,A:s]:","![A:s]:![I]:?[B:t]:"};
      string q=Q[choose(4)]; int l1=choose(8),l2=choose(8),l3=choose(8),o1=choose(nb),o2=choose(nb),ng=choose(4); if(!vh_mine()) continue; vh_states++;
      string s=string("(")+((ng&1)?"~":"")+"("+LF[l1]+")"+BOPS[o1]+"("+LF[l2]+BOPS[o2]+((ng&2)?"~":"")+"("+LF[l3]+")))"; string src=string(D)+"tff(n1,axiom,"+q+s+").\n"; vh_note("%s",src.c_str());
      string p1=rt(src,TSTP,TSTP,5); if(!g_end){ vh_fail("rejected","typed input is not read to its end"); continue; } string p2=rt(p1,TSTP,TSTP,5); if(!g_end){ vh_fail("unreadable","typed output not read back\n%s",p1.c_str()); continue; }
      // the declarations precede the formulas; $true stands for each declaration in the formula list
      size_t a=p1.rfind("(n1,"), b=p2.rfind("(n1,"); if(a==string::npos||b==string::npos||p1.substr(a)!=p2.substr(b)){ vh_fail("unstable","typed\n%s---\n%s",p1.c_str(),p2.c_str()); continue; }
      Sig sig; vector<Ann> A,B; try { A=parseAll(sig,src); B=parseAll(sig,p1); } catch(ParseError&e){ vh_fail("unreadable","%s\n%s",e.what(),p1.c_str()); continue; }
      Form fx{A.back().f,A.back().varSort},fy{B.back().f,B.back().varSort}; int bad=0; for(int d=1;d<=2&&!bad;d++) if(entails(sig,{fx},fy,d,60000)==0||entails(sig,{fy},fx,d,60000)==0) bad=d; if(bad){ vh_fail("meaning","typed formula changes its meaning (domain %d)\n%s",bad,p1.c_str()); continue; }
      vh_outcome(vh_hs(p1.c_str()+a)); vh_sample(); }
  }
  return vh_done(); }
