// strat.cpp - C26: strategy descriptions.  --exe eprover --mode names|values|options|bad  --probs N
#include "pools.hpp"
#include <map>
static string E; static vector<string> PROBS;
static string body(const string&o){ size_t p=o.find("\n{"); return p==string::npos?"":o.substr(p+1); }
static vector<string> lines(const string&t){ vector<string> v; string l; for(char c:t){ if(c=='\n'){ v.push_back(l); l.clear(); } else l+=c; } if(!l.empty()) v.push_back(l); return v; }
static string join(const vector<string>&v){ string s; for(auto&x:v) s+=x+"\n"; return s; }
static string norm(const string&o){ string r; for(auto&l:lines(o)){ static const char*skip[]={"time","Time","strategy","Strategy","lift_lambdas","memory","Memory","RSS","Version"}; bool s=false; for(auto k:skip) if(l.find(k)!=string::npos) s=true; if(!s) r+=l+"\n"; } return r; }
static string keyOf(const string&l){ size_t i=l.find_first_not_of(' '); size_t c=l.find(':'); return c==string::npos||i==string::npos?"":l.substr(i,c-i); }
static string valOf(const string&l){ size_t c=l.find(':'); c=l.find_first_not_of(' ',c+1); return c==string::npos?"":l.substr(c); }
static string setVal(const string&l,const string&v){ size_t c=l.find(':'); size_t d=l.find_first_not_of(' ',c+1); return l.substr(0,d==string::npos?l.size():d)+v; }
static string firstDiff(const string&a,const string&b){ auto x=lines(a),y=lines(b); for(size_t i=0;i<std::max(x.size(),y.size());i++){ string p=i<x.size()?x[i]:"(end)",q=i<y.size()?y[i]:"(end)"; if(p!=q) return p+"  <>  "+q; } return "same"; }
static vector<string> search(vector<string> o,const string&p){ vector<string> a{E,"-l","1","-C80","--generated-limit=1500","--cpu-limit=20"}; a.insert(a.end(),o.begin(),o.end()); a.push_back(p); return a; }
static bool sameSearch(const vector<string>&x,const vector<string>&y,const string&what){ for(auto&p:PROBS){ Res a=runProg(search(x,p),60),b=runProg(search(y,p),60); vh_trans+=2; if(a.timeout||b.timeout) continue; if(a.crashed()||b.crashed()||a.code()!=b.code()||norm(a.out)!=norm(b.out)){ if(norm(a.out).find("out of")!=string::npos) continue; vh_fail("search","%s: the search differs on %s (exit %d, %d): %s",what.c_str(),strrchr(p.c_str(),'/')+1,a.code(),b.code(),firstDiff(norm(a.out),norm(b.out)).c_str()); return false; } vh_outcome(vh_hs(norm(a.out).c_str())); } return true; }
static const char*T[]={
 "cnf(a,axiom,f(f(X,Y),Z)=f(X,f(Y,Z))).\ncnf(b,axiom,f(X,Y)=f(Y,X)).\ncnf(c,axiom,f(X,i(X))=e).\ncnf(d,axiom,f(e,X)=X).\ncnf(g,negated_conjecture,i(f(a,b))!=f(i(a),i(b))).\n",
 "fof(a,axiom,![X]:(p(X)=>?[Y]:(q(X,Y)&p(Y)))).\nfof(b,axiom,![X,Y]:(q(X,Y)=>(r(Y)|q(Y,X)))).\nfof(c,axiom,![X]:(r(X)<=>(p(f(X))|~q(X,X)))).\nfof(d,hypothesis,p(a)|p(b)).\nfof(g,conjecture,?[X]:(r(X)&p(X))).\n",
 "cnf(a,axiom,~p(X,Y)|~p(Y,Z)|p(X,Z)).\ncnf(b,axiom,p(X,f(X))).\ncnf(c,axiom,~p(X,X)|q(X)|X=a).\ncnf(d,axiom,~q(X)|~q(Y)|X=Y).\ncnf(e,axiom,q(a)|q(b)|c!=d).\ncnf(h,hypothesis,p(f(f(X)),X)|c=d).\ncnf(g,negated_conjecture,~p(a,f(f(a)))|~q(f(X))).\n",
 "fof(a,axiom,![X,Y]:(m(X,Y)<=>?[Z]:(s(Z,X)&s(Z,Y)))).\nfof(b,axiom,![X]:?[Y]:(s(X,Y)&s(g(Y),h(X,Y)))).\nfof(c,axiom,![X,Y]:(h(X,Y)=h(Y,X)|g(X)=g(Y))).\nfof(d,axiom,![X]:g(g(X))=X).\nfof(e,conjecture,![X,Y]:?[Z]:(m(X,Z)&m(Z,g(Y)))).\n"};
struct O { const char*opt,*key,*val; };
static const vector<O> OPTS={{"--condense","condensing","true"},{"--condense-aggressive","condensing_aggressive","true"},{"--prefer-initial-clauses","prefer_initial_clauses","true"},{"-WSelectComplexG","selection_strategy","SelectComplexG"},{"--literal-selection-strategy=PSelectMinOptimalNoTypePred","selection_strategy","PSelectMinOptimalNoTypePred"},{"--select-on-processing-only","select_on_proc_only","true"},{"--inherit-paramod-literals","inherit_paramod_lit","true"},{"--inherit-goal-pm-literals","inherit_goal_pm_lit","true"},{"--inherit-conjecture-pm-literals","inherit_conj_pm_lit","true"},{"--selection-pos-min=1","pos_lit_sel_min","1"},{"--selection-pos-max=3","pos_lit_sel_max","3"},{"--selection-neg-min=2","neg_lit_sel_min","2"},{"--selection-neg-max=3","neg_lit_sel_max","3"},{"--selection-all-min=2","all_lit_sel_min","2"},{"--selection-all-max=4","all_lit_sel_max","4"},{"--selection-weight-min=5","weight_sel_min","5"},{"--destructive-er","er_varlit_destructive","true"},{"--strong-destructive-er","er_strong_destructive","true"},{"--destructive-er-aggressive","er_aggressive","true"},{"--forward-context-sr","forward_context_sr","true"},{"--forward-context-sr-aggressive","forward_context_sr_aggressive","true"},{"--backward-context-sr","backward_context_sr","true"},{"--prefer-general-demodulators","prefer_general","true"},{"-F0","forward_demod","0"},{"-F1","forward_demod","1"},{"--strong-rw-inst","rewrite_strong_rhs_inst","true"},{"--disable-eq-factoring","enable_eq_factoring","false"},{"--disable-paramod-into-neg-units","enable_neg_unit_paramod","false"},{"--disable-given-clause-fw-contraction","enable_given_forward_simpl","false"},{"--simul-paramod","pm_type","ParamodSim"},{"--oriented-simul-paramod","pm_type","ParamodOrientedSim"},{"--supersimul-paramod","pm_type","ParamodSuperSim"},{"--oriented-supersimul-paramod","pm_type","ParamodOrientedSuperSim"},{"--split-clauses=7","split_clauses","7"},{"--split-method=1","split_method","1"},{"--split-aggressive","split_aggressive","true"},{"--split-reuse-defs","split_fresh_defs","false"},{"--disequality-decomposition=8","diseq_decomposition","8"},{"--disequality-decomp-maxarity=1","diseq_decomp_maxarity","1"},{"--ac-handling=None","ac_handling","0"},{"--ac-handling=KeepUnits","ac_handling","2"},{"--ac-non-aggressive","ac_res_aggressive","false"},{"-tLPO4","ordertype","LPO4"},{"-tKBO","ordertype","KBO"},{"-wfirstmaximal0","to_weight_gen","firstmaximal0"},{"-warity","to_weight_gen","arity"},{"-Gunary_first","to_prec_gen","unary_first"},{"-Ginvfreq","to_prec_gen","invfreq"},{"-c1","to_const_weight","1"},{"--precedence=f>g","to_pre_prec","\"f>g\""},{"--order-weights=f:5","to_pre_weights","\"f:5\""},{"--fp-index=FP3D","","" },{"--presat-simplify","presat_interreduction","true"},{"--sos-uses-input-types","use_tptp_sos","true"},{"--satcheck=ConjMinMinFreq","sat_check_grounding","ConjMinMinFreq"},{"--satcheck-proc-interval=20","sat_check_step_limit","20"},{"--satcheck-decision-limit=30","sat_check_decision_limit","30"},{"--satcheck-normalize-const","sat_check_normconst","true"},{"--no-eq-unfolding","",""},{"--eq-unfold-maxclauses=3","eqdef_maxclauses","3"},{"--eq-unfold-limit=3","eqdef_incrlimit","3"},{"--definitional-cnf=5","formula_def_limit","5"},{"--miniscope-limit=2","miniscope_limit","2"},{"--no-preprocessing","no_preproc","true"},{"--filter-orphans-limit=3","filter_orphans_limit","3"},{"--forward-contract-limit=4","forward_contract_limit","4"},{"--delete-bad-limit=2000","delete_bad_limit","2000"},{"--goal-defs=Neg","add_goal_defs_neg","true"},{"--goal-subterm-defs","add_goal_defs_subterms","true"},{"--literal-comparison=TFOEqMax","lit_cmp","2"},{"-H(1*FIFOWeight(ConstPrio),5*Refinedweight(PreferGoals,1,2,1,1.5,2))","",""},{"-xAuto","",""},{"-xWeight","heuristic_name","Weight"}};
int main(int argc,char**argv){
  vh_init(argc,argv); scratchInit(); if(vh_arg("--preload")) setenv("LD_PRELOAD",vh_arg("--preload"),1); E=vh_arg("--exe"); string mode=vh_arg("--mode"); int np=vh_arg("--probs")?atoi(vh_arg("--probs")):4; for(int i=0;i<np&&i<4;i++){ string p=g_scratch+"/t"+std::to_string(i)+".p"; writeFile(p,T[i]); PROBS.push_back(p); }
  string f=g_scratch+"/s.txt"; vector<string> names; for(auto&l:lines(runProg({E,"--print-strategy=>all-names<"}).out)) if(!l.empty()&&l[0]!='%'){ size_t a=l.find_first_not_of(' '); names.push_back(l.substr(a)); } string def=body(runProg({E,"--print-strategy"}).out); auto dl=lines(def); if(names.size()<100||dl.size()<50){ vh_fail("list","no strategies are listed"); }
  vector<std::pair<int,string>> vals; if(mode=="values"){ map<string,set<string>> V; for(auto&n:names) for(auto&l:lines(body(runProg({E,"--print-strategy="+n}).out))) if(!keyOf(l).empty()) V[keyOf(l)].insert(valOf(l)); for(size_t i=0;i<dl.size();i++){ string k=keyOf(dl[i]),v=valOf(dl[i]); if(k.empty()) continue; set<string> s=V[k]; if(v=="true"||v=="false"){ s.insert("true"); s.insert("false"); } else if(!v.empty()&&(isdigit((unsigned char)v[0])||v[0]=='-')&&k!="lit_cmp"&&k!="ac_handling"&&k!="forward_demod"&&k!="split_method"){ for(auto x:{"0","1","2","3","7","50"}) s.insert(x); } for(auto&x:s) vals.push_back({(int)i,x}); } }
  auto parse=[&](const string&text){ writeFile(f,text); return runProg({E,"--parse-strategy="+f,"--print-strategy"},30,false); };
  while(vh_next()){
    if(mode=="names"){ string n=names[choose(names.size())]; if(!vh_mine()) continue; vh_note("%s",n.c_str()); vh_states++; Res r=runProg({E,"--print-strategy="+n}); string b=body(r.out); vh_trans++; if(r.crashed()||r.code()!=0||b.empty()){ vh_fail("print","strategy %s is listed but cannot be used",n.c_str()); continue; } Res q=parse(b); vh_trans++; if(q.crashed()||q.code()!=0){ vh_fail("parse","the description of %s is rejected",n.c_str()); continue; } if(body(q.out)!=b){ vh_fail("roundtrip","the description of %s changes: %s",n.c_str(),firstDiff(b,body(q.out)).c_str()); continue; } Res s=runProg({E,"--select-strategy="+n,"--print-strategy"}); vh_trans++; if(body(s.out)!=b){ vh_fail("select","selecting %s sets other parameters than it prints: %s",n.c_str(),firstDiff(b,body(s.out)).c_str()); continue; } sameSearch({"--select-strategy="+n},{"--parse-strategy="+f},n); }
    else if(mode=="values"){ auto&kv=vals[choose(vals.size())]; if(!vh_mine()) continue; auto d=dl; d[kv.first]=setVal(d[kv.first],kv.second); vh_note("%s",d[kv.first].c_str()); vh_states++; Res q=parse(join(d)); vh_trans++; if(q.crashed()||q.code()!=0){ vh_fail("value","a description with %s is rejected",d[kv.first].c_str()); continue; } if(body(q.out)!=join(d)) vh_fail("value","a description changes: %s",firstDiff(join(d),body(q.out)).c_str()); vh_outcome(vh_hs(body(q.out).c_str())); }
    else if(mode=="options"){ auto&o=OPTS[choose(OPTS.size())]; int base=0; if(!vh_mine()) continue; vector<string> b0; if(base==1) b0={"--select-strategy="+names[3]}; if(base==2) b0={"--select-strategy="+names[names.size()/2]}; vh_note("%s %s",base?b0[0].c_str():"",o.opt); vh_states++; auto a=b0; a.push_back(o.opt); auto pa=a; pa.insert(pa.begin(),E); pa.push_back("--print-strategy"); Res r=runProg(pa,30,true); vh_trans++; if(r.code()!=0){ if(!base) vh_fail("option","%s is rejected: %s",o.opt,r.out.substr(0,200).c_str()); continue; } string b=body(r.out); if(*o.key){ bool ok=false; for(auto&l:lines(b)) if(keyOf(l)==o.key&&valOf(l)==o.val) ok=true; if(!ok){ string got; for(auto&l:lines(b)) if(keyOf(l)==o.key) got=l; vh_fail("option","%s is not shown as %s: %s (but %s)",o.opt,o.key,o.val,got.c_str()); continue; } if(base==0){ auto x=lines(b); int nd=0; string w; for(size_t i=0;i<x.size()&&i<dl.size();i++) if(x[i]!=dl[i]&&keyOf(x[i])!=o.key){ nd++; w=x[i]; } (void)nd; } }
      writeFile(f,b); Res q=runProg({E,"--parse-strategy="+f,"--print-strategy"}); vh_trans++; if(body(q.out)!=b){ vh_fail("roundtrip","the description with %s changes: %s",o.opt,firstDiff(b,body(q.out)).c_str()); continue; } sameSearch(a,{"--parse-strategy="+f},o.opt); }
    else { int i=choose(dl.size()),k=choose(8); if(!vh_mine()) continue; auto d=dl; string key=keyOf(d[i]),v=valOf(d[i]); bool accept=false; string want; string what; switch(k){ case 0: if(key.empty()) continue; d.erase(d.begin()+i); accept=true; want=def; what="missing parameter"; break; case 1: if(key.empty()) continue; d[i].insert(d[i].find(':'),"x"); what="unknown parameter"; break; case 2: if(key.empty()) continue; d[i]=setVal(d[i],v[0]=='"'?"12":(isdigit((unsigned char)v[0])||v[0]=='-')?"many":"17"); what="value of the wrong kind"; break; case 3: if(key.empty()||v=="true"||v=="false"||v[0]=='"'||isdigit((unsigned char)v[0])||v[0]=='-'||key=="heuristic_name") continue; d[i]=setVal(d[i],"NoSuchThing"); what="unknown value"; break; case 4: if(i+1>=(int)dl.size()||key.empty()||keyOf(d[i+1]).empty()) continue; std::swap(d[i],d[i+1]); what="wrong order"; break; case 5: if(i==0) continue; d.resize(i); what="end is missing"; break; case 6: if(key.empty()) continue; d.insert(d.begin()+i,d[i]); what="repeated parameter"; break; default: if(i) continue; d.push_back("{ }"); what="text after the end"; }
      vh_note("%s at line %d: %s",what.c_str(),i,dl[i].c_str()); vh_states++; Res q=parse(join(d)); vh_trans++; if(q.crashed()||q.timeout){ vh_fail("bad","the prover crashes on a description with %s",what.c_str()); continue; } if(accept){ if(q.code()!=0||body(q.out)!=want) vh_fail("missing","a description without %s is not completed by the default",key.c_str()); } else if(q.code()==0) vh_fail("bad","a description with %s is accepted: line %d, %s",what.c_str(),i,dl[i].c_str()); vh_outcome(q.code()*100+k); }
    vh_sample(); }
  scratchDone(); return vh_done(); }
