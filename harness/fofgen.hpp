// fofgen.hpp - enumerates all closed formulas with a given number of connectives and quantifiers
#pragma once
#include "vh.h"
#include <string>
#include <vector>
using std::string; using std::vector;
// leaf patterns: the i-th leaf of a formula takes entry i (mod length); X and Y out of scope are replaced by constants a and b
static const vector<vector<const char*>> LEAVES={
 {"p(X)","q(X,Y)","p(Y)","r","q(Y,X)"},
 {"q(X,Y)","X=Y","p(f(X))","q(Y,a)","p(X)"},
 {"f(X)=Y","p(Y)","f(Y)!=a","q(X,X)","r"},
 {"p(X)","p(X)","q(X,Y)","p(Y)","p(X)"},
 {"X!=Y","q(Y,f(X))","$false","q(f(Y),X)","p(Y)"},
 {"r","p(X)","$true","X=a","q(X,Y)"},
};
static const char*BOPS[]={"&","|","=>","<=>","<~>","~&","~|","<="};
struct FofGen {
  int pat=0, leaf=0, nb=6; bool x=false,y=false;
  string atom(){ const char*s=LEAVES[pat][leaf++%LEAVES[pat].size()]; string r; for(;*s;s++){ if(*s=='X'&&!x) r+='a'; else if(*s=='Y'&&!y) r+='b'; else r+=*s; } return r; }
  // n = number of internal nodes of this subformula
  string gen(int n){
    if(n==0) return atom();
    int c=choose(5+nb);
    if(c==0) return "~("+gen(n-1)+")";
    if(c<5){ bool q=c&1; bool vx=c<3; bool&v=vx?x:y; bool old=v; v=true; string s=string(q?"!":"?")+(vx?"[X]:(":"[Y]:(")+gen(n-1)+")"; v=old; return s; }
    int l=choose(n); string a=gen(l); string b=gen(n-1-l); return "("+a+" "+BOPS[c-5]+" "+b+")"; }
};
