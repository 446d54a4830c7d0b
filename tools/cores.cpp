// offline: enumerate all subsets up to size k of each pool that have no model of size <=3 while all their
// proper subsets do; prints "pool mask smt" lines.  Input to tools/cores.py, which confirms unsatisfiability.
#include "pools.hpp"
static string smtT(Sig&g,const Node&n){ if(n.k==VAR) return "V"+std::to_string(n.s); string s="f_"+g.syms[n.s].name; if(n.c.empty()) return s; s="("+s; for(auto&c:n.c) s+=" "+smtT(g,*c); return s+")"; }
static string smt(Sig&g,const Node&n){ switch(n.k){ case TRU: return "true"; case FLS: return "false"; case EQ: return "(= "+smtT(g,*n.c[0])+" "+smtT(g,*n.c[1])+")"; case ATOM: { string s="p_"+g.syms[n.s].name; if(n.c.empty()) return s; s="("+s; for(auto&c:n.c) s+=" "+smtT(g,*c); return s+")"; }
  case NOT: return "(not "+smt(g,*n.c[0])+")"; case OR: case AND: { string s=n.k==OR?"(or":"(and"; for(auto&c:n.c) s+=" "+smt(g,*c); return s+")"; } case ALL: { string s="(forall ("; for(int v:n.vs) s+="(V"+std::to_string(v)+" U)"; return s+") "+smt(g,*n.c[0])+")"; } default: return "?"; } }
int main(int argc,char**argv){ map<string,int> mk{{"prop",9},{"simp",6},{"ground",6},{"congr",6},{"splitv",7},{"nonhorn",6},{"wide",6}};
 string only=argc>1?argv[1]:"";
 for(auto&P:POOLS){ if(!only.empty()&&only!=P.name) continue; int M=P.cl.size(); int K=mk.count(P.name)?mk[P.name]:5; vector<bool> nomodel(1u<<M);
  for(unsigned k=1;k<=(unsigned)K;k++){ unsigned m=(1u<<k)-1; while(m<(1u<<M)){ bool sup=false; for(int j=0;j<M;j++) if(m>>j&1) if(nomodel[m&~(1u<<j)]) sup=true;
    if(sup) nomodel[m]=1; else { Sig sig; vector<Form> fs; string s; for(int j=0;j<M;j++) if(m>>j&1) s+="cnf(a,axiom,("+string(P.cl[j])+")).\n"; for(auto&a:parseAll(sig,s)) fs.push_back({a.f,a.varSort});
      bool mod=false,unk=false; for(int d=1;d<=3&&!mod;d++){ int r=satisfiable(sig,fs,d,20000); if(r==1) mod=true; if(r<0) unk=true; }
      if(!mod){ nomodel[m]=1; string t="(declare-sort U 0)"; for(auto&y:sig.syms){ t+="(declare-fun "+string(y.pred?"p_":"f_")+y.name+" ("; for(int j=0;j<y.ar;j++) t+=" U"; t+=") "+string(y.pred?"Bool":"U")+")"; } for(auto&f:fs) t+="(assert "+smt(sig,*f.f)+")"; t+="(check-sat)"; printf("%s\t%u\t%s\n",P.name,m,t.c_str()); } }
    unsigned c=m&-m,r=m+c; m=(((r^m)>>2)/c)|r; } } } }
