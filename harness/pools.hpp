// pools.hpp - alphabets of clauses; problems are all k-subsets of a pool
#pragma once
#include "cli.hpp"
static vector<Pool> POOLS={
 {"epr",{ "p(a)","~p(b)","~p(X)|q(X,X)","~p(X)|q(X,a)","p(X)|p(Y)|~q(X,Y)","~q(X,Y)|q(Y,X)","~q(X,Y)|~q(Y,Z)|q(X,Z)","~q(a,b)","~q(b,a)|r","q(a,X)","q(X,b)|~r","r|p(b)","~r|~p(a)",
   "a=b","a!=b|p(b)","X=a|X=b","X=Y|q(X,Y)","~q(X,Y)|X=Y","b=c|p(c)","~p(c)|a=c","p(X)|q(X,Y)|r","~q(X,X)","~p(X)|~p(Y)|X=Y","q(a,b)|q(b,a)","~q(X,b)|~p(X)|r","p(X)|~p(Y)|q(X,Y)"},true},
 {"ueq",{ "f(X,Y)=f(Y,X)","f(f(X,Y),Z)=f(X,f(Y,Z))","f(X,e)=X","f(e,X)=X","f(X,i(X))=e","f(i(X),X)=e","i(i(X))=X","f(X,X)=X","f(X,X)=e","i(X)=X","i(e)=a","f(X,Y)=X","f(X,f(X,Y))=Y","f(a,X)=f(b,X)","a=b","i(a)=b",
   "f(a,b)!=f(b,a)","a!=e","i(i(a))!=a","f(a,f(b,a))!=b","f(a,a)!=e","f(X,a)!=X","i(X)!=X","f(f(a,b),i(b))!=a","i(f(a,b))!=f(i(b),i(a))","X=Y"},false},
 {"horn",{ "p(a)","p(f(a))","~p(X)|p(f(X))","~p(f(X))|p(X)","~p(f(f(a)))","~p(X)|q(X,f(X))","~q(X,Y)|q(f(X),Y)","~q(X,Y)|~q(Y,X)","~q(X,Y)|p(Y)","q(a,X)|~p(X)","~q(f(X),X)","f(X)=X|~p(X)","f(f(X))=X","f(a)=b","f(X)!=X","~p(b)","q(X,X)","~q(f(b),f(a))",
   "f(X)!=f(Y)|X=Y","a!=b","~q(X,f(X))|~p(X)","f(f(f(X)))=a|~p(X)","p(b)|~q(b,b)","~p(X)|~p(f(X))","g(X,Y)=f(X)|~q(X,Y)","~p(g(X,X))","g(a,X)=X"},false},
 {"nonhorn",{ "p(X)|p(f(X))","~p(X)|~p(f(X))","p(X)|q(X,Y)","~q(X,Y)|~q(Y,X)|X=Y","q(X,Y)|q(Y,X)","f(X)=X|f(X)=a","f(X)!=a|p(X)","X=a|X=b|X=c","f(a)=b|f(b)=a","~p(X)|f(X)=c|q(X,a)","a!=b","b!=c","a!=c","~q(f(X),X)|p(a)","f(f(X))!=X","p(a)|p(b)|p(c)","~p(a)|~p(b)","~p(X)|q(X,f(X))|X=a","~q(a,X)|f(X)=f(a)","f(X)=f(Y)|q(X,Y)","~q(X,X)|p(X)",
   "p(X)|X=f(Y)|~p(Y)","~p(f(X))|p(X)|q(a,X)","f(X)!=f(Y)|X=Y|p(Y)","~q(X,Y)|f(X)=Y"},false},
 {"wide",{ "h(X,Y,Z)=h(Y,Z,X)","h(X,X,Y)=Y","h(X,Y,X)=X","s(X,Y,Z)|~s(Y,Z,X)","s(X,Y,X)|s(Y,X,Y)|p(X)","~s(X,Y,Z)|~s(X,Y,U)|Z=U","s(X,Y,h(X,Y,a))","~s(X,Y,Z)|~s(Y,X,U)|s(a,Z,U)|p(Z)","~p(X)|~p(Y)|~p(Z)|X=Y|Y=Z|X=Z","p(X)|p(Y)|s(X,Y,a)|s(Y,X,b)","~p(h(X,Y,Z))|p(X)|p(Y)|p(Z)","~s(a,b,a)","~s(X,X,X)","p(h(a,b,a))","~p(a)","~p(b)","h(a,X,b)!=h(b,X,a)","h(X,a,Y)=h(X,b,Y)|p(X)","~s(X,Y,Z)|h(X,Y,Z)=a|h(Y,X,Z)=b","a!=b","~s(X,X,Y)|~s(Y,X,X)|~p(Y)","s(X,Y,Z)|p(X)|h(X,Y,Z)=Z"},false},
 // contraction-heavy: tautologies, duplicates, condensable and subsuming clauses, unit simplification, contextual cutting
 {"simp",{ "p(X)|p(Y)|q(X,Y)","p(X)|q(X,X)","p(a)|q(a,Y)","~p(X)|~p(a)","~p(X)|q(X,a)|q(X,Y)","~q(X,Y)|~q(X,a)|r","r|q(X,f(X))","~r|p(f(X))","~r|q(X,Y)|p(X)","f(X)=a|p(X)","f(a)=a|~p(a)","f(X)!=a|~q(X,X)","f(f(a))!=a|r","~q(f(X),f(X))|X!=a","X!=f(Y)|p(X)|~p(Y)","X!=a|q(X,b)","~p(X)|X!=b|r","q(X,Y)|X!=Y|p(Y)","~q(a,b)|~r","p(b)|~p(b)|r","f(X)=f(X)|r","~p(f(f(X)))|~r","f(b)=b","p(X)|f(X)!=b|X!=b","~q(X,Y)|q(f(X),f(Y))"},false},
 {"prop",{ "p|q|r","p|q|~r","p|~q|s","~p|q|r|s","~p|~q","~r|~s","~p|r","~q|s","q|~s|t","p|~t","~r|t","~t|s|q","~s|~p|~t","r|s|t","~q|~r|t","p|s","~p|~s|~r","q|r|~t","t|~s|p","~t|~q|~r"},true},
 {"order",{ "le(X,X)","~le(X,Y)|~le(Y,Z)|le(X,Z)","~le(X,Y)|~le(Y,X)|X=Y","le(X,Y)|le(Y,X)","le(min(X,Y),X)","le(min(X,Y),Y)","~le(Z,X)|~le(Z,Y)|le(Z,min(X,Y))","min(X,Y)=min(Y,X)","min(X,Y)=X|min(X,Y)=Y","min(X,Y)!=X|le(X,Y)","~le(X,Y)|min(X,Y)=X","min(X,min(Y,Z))=min(min(X,Y),Z)",
   "min(a,b)!=min(b,a)","~le(min(a,b),b)","a!=b","le(a,b)","~le(b,a)","le(b,a)","~le(a,min(b,c))","le(a,c)","min(a,min(b,a))!=min(a,b)","~le(min(a,c),min(a,b))","le(X,bot)","le(bot,X)","min(a,a)!=a"},false},
 {"set",{ "~in(X,A)|~sub(A,B)|in(X,B)","in(sk(A,B),A)|sub(A,B)","~in(sk(A,B),B)|sub(A,B)","~in(X,un(A,B))|in(X,A)|in(X,B)","~in(X,A)|in(X,un(A,B))","~in(X,B)|in(X,un(A,B))","~sub(A,B)|~sub(B,A)|A=B","~in(X,e)","~sub(A,B)|un(A,B)=B","sub(A,un(A,B))","un(A,B)=un(B,A)","un(A,A)=A","un(A,e)=A",
   "~sub(e,a)","~sub(a,un(a,b))","sub(a,b)","~sub(a,a)","un(a,b)!=un(b,a)","in(c,a)","~in(c,b)","~in(c,un(b,a))","~sub(a,c)|in(c,b)","un(a,e)!=a","sub(b,a)","a!=b"},false},
 {"peano",{ "add(z,X)=X","add(s(X),Y)=s(add(X,Y))","mul(z,X)=z","mul(s(X),Y)=add(mul(X,Y),Y)","s(X)!=z","s(X)!=s(Y)|X=Y","~ev(z)|ev(s(s(z)))","ev(z)","~ev(X)|ev(s(s(X)))","ev(X)|ev(s(X))","~ev(X)|~ev(s(X))","lt(X,s(X))","~lt(X,Y)|lt(X,s(Y))","~lt(X,X)","~lt(X,Y)|~lt(Y,Z)|lt(X,Z)","add(X,Y)=add(Y,X)",
   "add(s(z),s(z))!=s(s(z))","~ev(s(s(s(s(z)))))","ev(s(z))","~lt(z,s(s(z)))","lt(s(z),z)","add(a,s(b))!=s(add(a,b))","mul(s(s(z)),a)!=add(a,a)","s(s(a))=s(a)"},false},
 {"arity4",{ "k(X,Y,Z,U)=k(U,Z,Y,X)","k(X,X,Y,Z)=Y","k(X,Y,Y,X)=X|t(X,Y,a,b)","t(X,Y,Z,U)|~t(Y,X,U,Z)","~t(X,Y,Z,U)|k(X,Y,Z,U)=k(Y,X,Z,U)","t(X,Y,X,Y)","~t(X,X,Y,Y)|p(X)|p(Y)","~p(k(a,X,b,Y))","p(a)|p(b)","~p(a)|t(a,b,X,Y)","~t(a,b,b,a)","~t(X,Y,Z,U)|~p(X)|~p(Y)|~p(Z)|~p(U)","~p(b)|~t(X,a,X,a)","k(a,b,b,a)!=a","k(a,a,b,c)!=b","p(k(X,Y,Z,Y))|X=Z","c=a","p(c)","k(a,X,Y,b)!=k(b,X,Y,a)|~t(X,X,Y,Y)","~p(X)|X=a|X=b","a!=b|p(X)"},false},
 {"splitv",{ "p(X)|q(Y)","~p(X)|r(Y)|q(a)","~q(X)|~r(Y)","p(X)|r(X)|q(Y)|s(Z)","~s(X)|p(a)","~s(X)|~p(Y)|~q(Z)","~p(a)|~p(b)","~q(b)|s(Y)","q(X)|~r(X)|f(Y)=Y","f(X)!=X|~r(X)","r(X)|r(f(Y))","~r(a)|~r(f(b))","a=b|p(Y)","~p(X)|X=a|q(Y)","s(f(X))|q(f(Y))","~s(f(a))","~q(f(X))|~q(Y)","p(f(X))|X!=Y|r(Y)","~p(f(X))|~r(Y)|s(Y)","r(b)|q(a)"},false},
 {"ground",{ "f(a)=b","f(b)=c","f(c)=a","f(f(a))=a","g(a,b)=c","g(b,c)=a","g(f(a),f(b))=f(c)","a=c|b=c","a!=b|f(a)!=f(b)","f(a)!=f(b)","g(a,c)!=g(c,a)|a=b","p(a)|p(f(b))","~p(c)|f(a)=a","~p(a)|p(g(a,b))","~p(g(a,b))|~p(f(b))","a!=c","b!=c","a!=b","g(a,a)=a|g(b,b)=b","g(a,a)!=f(a)","g(b,b)!=f(f(f(b)))","~p(f(f(a)))","f(f(f(a)))=a|p(b)","p(f(f(f(b))))|a=b"},false},
 {"deep",{ "f(f(f(X)))=X","f(f(X))=X","f(f(f(f(f(X)))))=X","f(a)!=a","p(f(f(f(f(a)))))","~p(f(f(a)))","~p(X)|p(f(f(X)))","g(f(X),Y)=f(g(X,Y))","g(X,f(Y))=f(g(X,Y))","g(g(X,Y),Z)=g(X,g(Y,Z))","g(a,X)=X","g(f(f(f(a))),f(a))!=f(f(f(f(a))))","g(X,f(f(X)))=a","f(g(X,X))=g(f(X),X)","g(f(a),f(a))!=f(f(a))","g(f(X),f(Y))=g(Y,X)","g(a,f(f(a)))!=f(g(f(a),a))","~p(a)","p(g(f(a),f(a)))","~p(g(X,Y))|p(X)","~p(f(X))|p(X)","g(X,Y)!=f(X)|p(Y)","p(X)|f(X)=a","f(g(a,b))!=g(f(b),a)"},false},
 {"manyvars",{ "~q(X,Y)|~q(Y,Z)|~q(Z,U)|q(X,U)","~q(X,Y)|~q(Y,Z)|q(Z,X)","q(X,Y)|q(Y,Z)|q(Z,U)|X=U","~q(X,Y)|~q(Z,U)|q(m(X,Z),m(Y,U))","q(a,b)","q(b,c)","q(c,d)","~q(a,d)","~q(d,a)","~q(X,X)","q(X,m(X,Y))","m(X,Y)=m(Y,X)","~q(m(a,b),m(b,c))","~q(a,m(b,a))","~q(X,Y)|X=Y|q(Y,X)","a!=d","~q(m(X,Y),Z)|q(X,Z)","~q(m(X,Y),Z)|q(Y,Z)","q(m(a,c),d)","~q(X,Y)|~q(X,Z)|~q(X,U)|Y=Z|Y=U|Z=U","~q(X,Y)|m(X,Y)=Y","m(b,c)!=c","~q(b,d)|~q(c,b)"},false},
 {"congr",{ "X!=Y|~p(X)|p(Y)|r","a=f(b)","b=f(a)","f(f(a))=c","~p(f(f(c)))","p(a)","p(c)|r","~r|a=b","f(X)=f(Y)|~r","~p(b)|r","f(X)!=f(Y)|X=Y","c!=a","f(c)!=b","X=a|X=f(a)|r","~p(f(X))|~p(X)","p(f(X))|p(X)","~r","r|f(b)=b","g(X,X)=c","g(a,b)=f(c)","g(f(X),Y)=g(X,f(Y))","p(g(a,X))|X=b","~p(g(X,Y))|X!=f(Y)","g(a,f(b))!=c"},false},
};
struct Cfg { const char*name; const char*opts; bool incomplete; };
static vector<Cfg> CFGS={
 {"default","",false},
 {"auto","--auto",false},
 {"kbo6-inv","-tKBO6 -winvfreqrank -Ginvfreq",false},
 {"kbo","-tKBO -Garity -wfirstmaximal0",false},
 {"lpo","-tLPO -Gunary_first",false},
 {"lpo4","-tLPO4 -Ginvfreqconstmin",false},
 {"nosel","-WNoSelection -xWeight",false},
 {"selneg","-WSelectNegativeLiterals -xFIFO",false},
 {"psel","-WPSelectComplexExceptUniqMaxHorn -xStandardWeight",false},
 {"sellarge","-WSelectLargestNegLit -xRWeight",false},
 {"maxlcomplex","-WSelectMaxLComplexAvoidPosPred -tKBO6",false},
 {"newcomplex","-WSelectNewComplexAHP --prefer-initial-clauses",false},
 {"simpm","--simul-paramod --condense -tLPO4",false},
 {"osimpm","--oriented-simul-paramod --condense-aggressive",false},
 {"supersim","--supersimul-paramod --forward-context-sr",false},
 {"osupersim","--oriented-supersimul-paramod --forward-context-sr-aggressive --backward-context-sr",false},
 {"split1","--split-clauses=4 --split-reuse-defs",false},
 {"split2","--split-clauses=7 --split-aggressive --split-method=1",false},
 {"split3","--split-clauses=31 --split-method=2 --split-reuse-defs",false},
 {"der","--destructive-er --strong-destructive-er --destructive-er-aggressive",false},
 {"demod0","-F0 --fp-index=NoIndex",false},
 {"demod1","-F1 -u --strong-rw-inst",false},
 {"gendemod","-g --detsort-rw --detsort-new --fp-index=FP7M",false},
 {"noidx","--conventional-subsumption --pm-from-index=NoIndex --pm-into-index=NoIndex --rw-bw-index=NoIndex",false},
 {"fvperm","--subsumption-indexing=Perm --fvindex-featuretypes=SS --pdt-no-age-constr --pdt-no-size-constr",false},
 {"fvopt","--subsumption-indexing=PermOpt --fvindex-featuretypes=All --fvindex-slack=1 --fw-subsumption-aggressive --fp-index=FP1",false},
 {"fp2","--fp-index=FP2 --fp-no-size-constr --disable-given-clause-fw-contraction",false},
 {"fp4","--fp-index=FP4X2_2 --select-on-processing-only -i",false},
 {"fp6","--fp-index=FP6M -j --inherit-conjecture-pm-literals",false},
 {"npdt","--fp-index=NPDT --ac-handling=KeepUnits",false},
 {"acdis","--ac-handling=DiscardAll --ac-non-aggressive",false},
 {"acori","--ac-handling=KeepOrientable",false},
 {"dd","--disequality-decomposition=1024 --disequality-decomp-maxarity=2",false},
 {"presat","--presat-simplify --filter-orphans-limit=1 --forward-contract-limit=2",false},
 {"sat","--satcheck-proc-interval=1 --satcheck=ConjMinMinFreq",false},
 {"satn","--satcheck-proc-interval=2 --satcheck=PseudoVar --satcheck-normalize-const --satcheck-normalize-unproc",false},
 {"satg","--satcheck-proc-interval=3 --satcheck=GlobalMin --satcheck-decision-limit=-1",false},
 {"gdef","--goal-defs=All --goal-subterm-defs",false},
 {"bce","--bce=true --bce-max-occs=50",false},
 {"pe","--pred-elim=true --pred-elim-max-occs=100 --pred-elim-tolerance=1000",false},
 {"pe2","--pred-elim=true --pred-elim-recognize-gates=false --pred-elim-force-mu-decrease=true --pred-elim-max-occs=100 --bce=true",false},
 {"nopre","--no-preprocessing",false},
 {"eu","--eq-unfold-limit=10 --eq-unfold-maxclauses=100",false},
 {"rlc","--restrict-literal-comparisons",true},
 {"litcmp","--literal-comparison=TFOEqMin -tKBO6",false},
 {"litcmp2","--literal-comparison=TFOEqMax -tLPO4",false},
 {"noeqf","--disable-eq-factoring",true},
 {"nopmneg","--disable-paramod-into-neg-units",true},
 {"nogen","--no-generation",true},
 {"sine","--sine=Auto",true},
 {"relprune","--rel-pruning-level=1",true},
 {"delbad","--delete-bad-limit=1",true},
 {"prec","--precedence -tLPO4",false},
 {"cw","-c1 -tKBO6 -Gfreq -wconstant",false},
};
