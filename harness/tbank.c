/* tbank.c - C12: all sequences of term store operations and collections, against a reference set of terms */
#include "ecore.h"
#include "ecl.h"
#include <ccl_garbage_coll.h>
#include <ccl_formulasets.h>
#include <ccl_proofstate.h>
static int A, B, F, G, H, P; static int pool[40], np; static Term_p ptr[RMAX]; static unsigned char live[RMAX];
static int T(const char *s) { static const char *p; if (s) p = s; char c = *p++; if (c == 'x') return rvar(0); if (c == 'y') return rvar(1); if (c == 'z') return rvar(2); int f = c == 'a' ? A : c == 'b' ? B : c == 'f' ? F : c == 'g' ? G : c == 'h' ? H : P; int a[4], i; for (i = 0; i < rsym[f].ar; i++) a[i] = T(NULL); return rmk(f, rsym[f].ar, a); }
/* unshared copy of a reference term; variables of the bank */
static Term_p mkun(int t) { if (RISVAR(t)) return evar(RVAR(t)); Term_p r = TermTopAlloc(rsym[rt[t].f].code, rt[t].n); int i; for (i = 0; i < rt[t].n; i++) r->args[i] = mkun(rt[t].a[i]); r->type = rsym[rt[t].f].pred ? sig->type_bank->bool_type : itype; return r; }
static void freeun(Term_p t) { if (TermIsFreeVar(t)) return; int i; for (i = 0; i < t->arity; i++) freeun(t->args[i]); TermTopFree(t); }
static int rw_(int t) { if (RISVAR(t)) return DEFAULT_VWEIGHT; int i, w = DEFAULT_FWEIGHT; for (i = 0; i < rt[t].n; i++) w += rw_(rt[t].a[i]); return w; }
static int rvc(int t) { if (RISVAR(t)) return 1; int i, w = 0; for (i = 0; i < rt[t].n; i++) w += rvc(rt[t].a[i]); return w; }
static void bad(const char *k, const char *w, int t) { vh_fail(k, "%s: %s", w, rshow(t)); }
/* the term t is now in the bank at q: check everything recorded about it */
static void chk(int t, Term_p q) { if (RISVAR(t)) { if (q != evar(RVAR(t))) bad("sharing", "variable is not the shared one", t); return; } int i; if (q->f_code != rsym[rt[t].f].code || q->arity != rt[t].n) { bad("structure", "wrong term at this reference", t); return; } for (i = 0; i < rt[t].n; i++) chk(rt[t].a[i], q->args[i]);
  if (live[t] && ptr[t] != q) bad("sharing", "equal terms at different references", t); if (!live[t]) { live[t] = 1; ptr[t] = q; } if (q->weight != rw_(t)) bad("weight", "recorded weight is wrong", t); if (q->v_count != rvc(t)) bad("weight", "recorded number of variables is wrong", t); if (q->f_count != rt[t].w - rvc(t)) bad("weight", "recorded number of function symbols is wrong", t); if (!TermCellQueryProp(q, TPIsGround) != (rvc(t) > 0)) bad("ground", "recorded groundness is wrong", t); if (!TermCellQueryProp(q, TPIsShared)) bad("shared", "term is not marked shared", t); }
static int regs[4], nreg; static ClauseSet_p cset[2]; static Clause_p rcl[4]; static int rcs[4]; static int rwl[4][2], nrw; static Clause_p demod; static FormulaSet_p fset; static int nform; static const char *lastform[4]; static int flive[4][2];
static void mark(int t, unsigned char *m_) { int i; if (RISVAR(t) || m_[t]) return; m_[t] = 1; for (i = 0; i < rt[t].n; i++) mark(rt[t].a[i], m_); for (i = 0; i < nrw; i++) if (rwl[i][0] == t) mark(rwl[i][1], m_); }
static void whole(void) { int i, j, n = 0; for (i = 0; i < rtn; i++) if (live[i]) { n++; if (rof(ptr[i], 0) != i) bad("structure", "stored term has changed", i); else chk(i, ptr[i]); if (TBFind(bank, ptr[i]) != ptr[i]) bad("find", "stored term is not found", i); Term_p u = mkun(i); for (j = 0; j < u->arity && u->arity == rt[i].n; j++) if (!TermIsFreeVar(u->args[j])) { freeun(u->args[j]); u->args[j] = live[rt[i].a[j]] ? ptr[rt[i].a[j]] : NULL; } Term_p f = TermCellStoreFind(&bank->term_store, u); if (f != ptr[i]) bad("find", "looking up an equal term gives another reference", i); TermTopFree(u); }
  long extra = 2 + 3L * nform * 0; if (!nform) { if (TBNonVarTermNodes(bank) != n + extra) vh_fail("count", "%ld terms counted instead of %ld", (long)TBNonVarTermNodes(bank), n + extra); if (TermCellStoreCountNodes(&bank->term_store) != n + extra) vh_fail("count", "%ld terms stored instead of %ld", (long)TermCellStoreCountNodes(&bank->term_store), n + extra); }
  for (i = 0; i < rtn; i++) if (live[i]) for (j = i + 1; j < rtn; j++) if (live[j] && (ptr[i] == ptr[j] || ptr[i]->entry_no == ptr[j]->entry_no)) vh_fail("identity", "%s and %s have the same reference or number", rshow(i), rshow(j)); }
static const char *FORM[3] = {"fof(x1,axiom,(![X]:p(g(X,a)))).", "fof(x2,axiom,(p(b)|~p(h(a,a,b)))).", "fof(x3,axiom,(?[X]:f(X)!=f(a)))."}; static const char *FT[3][2] = {{"a", NULL}, {"b", "haab"}, {"fa", NULL}};
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("tbank"); int K = atoi(vh_arg("--k")), set = atoi(vh_arg("--set")), i, j; A = rsymadd("a", 0, 0); B = rsymadd("b", 0, 0); F = rsymadd("f", 1, 0); G = rsymadd("g", 2, 0); H = rsymadd("h", 3, 0); P = rsymadd("p", 1, 1);
  static const char *ts0[] = {"fa", "gxy", "hxya", "hxyb", "hxyfa", "hxyx", "hxyhxya", NULL}, *ts1[] = {"haaa", "haab", "haafa", "haafb", "haaffa", "haahaaa", "haagaa", "haahaab", NULL}, *ts2[] = {"fx", "gxfy", "hxfyy", "ffx", "gfxfx", "haxx", NULL}; const char **ts = set == 0 ? ts0 : set == 1 ? ts1 : ts2; for (; *ts; ts++) pool[np++] = T(*ts);
  /* substitutions */ int S[3][2]; S[0][0] = T("a"); S[0][1] = T("a"); S[1][0] = T("fy"); S[1][1] = T("b"); S[2][0] = T("y"); S[2][1] = T("fa"); int Sres[3][16]; for (i = 0; i < 3; i++) { for (j = 0; j < 16; j++) Sres[i][j] = -1; Sres[i][1] = S[i][1]; Sres[i][0] = rsub(S[i][0], Sres[i]); int s1[16]; memset(s1, -1, sizeof s1); s1[1] = S[i][1]; Sres[i][0] = rsub(S[i][0], s1); }
  int nins = np, ninst = set == 1 ? 0 : np * 3, nrepl = np, nreg_ops = np, other = 6; int nops = nins * 2 + ninst + nrepl + nreg_ops * 2 + other + 3; long sgc = 0, srec = 0;
  while (vh_next()) { int k = 0, op; int ops[16]; while (k < K) { op = choose(nops + 1); if (op == nops) break; ops[k++] = op; if (k == 2 && !vh_mine()) { k = -1; break; } } if (k < 0) continue; if (k < 2 && !vh_mine()) continue; vh_states++;
    for (i = 0; i < rtn; i++) { live[i] = 0; ptr[i] = NULL; rterm[i] = NULL; } ecore_bank(); for (i = 0; i < 4; i++) VarBankGetFreshVar(bank->vars, itype); nreg = nrw = nform = 0; cset[0] = ClauseSetAlloc(); cset[1] = ClauseSetAlloc(); fset = FormulaSetAlloc(); TBGCRegisterClauseSet(bank, cset[0]); TBGCRegisterClauseSet(bank, cset[1]); TBGCRegisterFormulaSet(bank, fset); uint64_t h = 9; long g0 = vh_nfail; demod = ClauseAlloc(NULL); int done = 0;
    for (j = 0; j < k && vh_nfail == g0; j++) { op = ops[j]; vh_trans++;
      if (op < nins) { int t = pool[op]; vh_note(" insert(%s)", rshow(t)); Term_p u = mkun(t); Term_p q = j & 1 ? TBInsertNoProps(bank, u, DEREF_NEVER) : TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t, q); continue; } op -= nins;
      if (op < nins) { int t = pool[op]; vh_note(" parse(%s)", rshow(t)); char b[300]; sprintf(b, "%s ", rshow(t)); Scanner_p in = escan(b); Term_p q = TBTermParse(in, bank); DestroyScanner(in); /* parsed variables are those of the bank, by name */ int m_[16]; memset(m_, -1, sizeof m_); int r = rof(q, 0); int sx[16]; memset(sx, -1, sizeof sx); (void)r; if (rt[t].ground) chk(t, q); else { /* canonical: rename in order of occurrence */ int v0 = -1, bad_ = 0; int st[64], ns = 0; st[ns++] = r; int order[8], no = 0; while (ns) { int tt = st[--ns]; if (RISVAR(tt)) { int z; for (z = 0; z < no && order[z] != tt; z++); if (z == no) order[no++] = tt; } else for (i = rt[tt].n - 1; i >= 0; i--) st[ns++] = rt[tt].a[i]; } st[ns++] = t; int o2[8], n2 = 0; while (ns) { int tt = st[--ns]; if (RISVAR(tt)) { int z; for (z = 0; z < n2 && o2[z] != tt; z++); if (z == n2) o2[n2++] = tt; } else for (i = rt[tt].n - 1; i >= 0; i--) st[ns++] = rt[tt].a[i]; } if (no != n2) bad_ = 1; (void)v0; int s2[16]; memset(s2, -1, sizeof s2); for (i = 0; i < n2 && i < no; i++) s2[RVAR(o2[i])] = order[i]; if (bad_ || rsub(t, s2) != r) vh_fail("parse", "parsed term %s differs from %s", rshow(r), rshow(t)); else { int v; for (v = 0; v < no; v++) if (evar(RVAR(order[v])) == NULL) bad_ = 1; chk(r, q); } } continue; } op -= nins;
      if (op < ninst) { int t = pool[op / 3], s = op % 3; vh_note(" instance(%s,%d)", rshow(t), s); Term_p u = mkun(t); Term_p q0 = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t, q0); Term_p sx = mkun(S[s][0]), sy = mkun(S[s][1]); Term_p bx = TBInsert(bank, sx, DEREF_NEVER), by = TBInsert(bank, sy, DEREF_NEVER); freeun(sx); freeun(sy); chk(S[s][0], bx); chk(S[s][1], by); evar(0)->binding = bx; evar(1)->binding = by; int want = rsub(t, Sres[s]); Term_p q; switch (j % 4) { case 0: q = TBInsert(bank, q0, DEREF_ALWAYS); break; case 1: q = TBInsertNoProps(bank, q0, DEREF_ALWAYS); break; case 2: q = TBInsertOpt(bank, q0, DEREF_ALWAYS); break; default: q = TBInsertNoPropsCached(bank, q0, DEREF_ALWAYS); } int s1[16]; memset(s1, -1, sizeof s1); s1[0] = S[s][0]; s1[1] = S[s][1]; int once = rsub(t, s1); Term_p q1 = TBInsertInstantiated(bank, q0); evar(0)->binding = evar(1)->binding = NULL; chk(want, q); chk(once, q1); chk(t, q0); continue; } op -= ninst;
      if (op < nrepl) { int t = pool[op]; vh_note(" replace(%s)", rshow(t)); Term_p u = mkun(t); Term_p q0 = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t, q0); int old = t; while (!RISVAR(old) && rt[old].n) old = rt[old].a[rt[old].n - 1]; int nw = T("gab"); u = mkun(nw); Term_p qn = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(nw, qn); Term_p qo = RISVAR(old) ? evar(RVAR(old)) : ptr[old]; int repl(int t_, int o_, int n_) { if (t_ == o_) return n_; if (RISVAR(t_)) return t_; int a[4], i_; for (i_ = 0; i_ < rt[t_].n; i_++) a[i_] = repl(rt[t_].a[i_], o_, n_); return rmk(rt[t_].f, rt[t_].n, a); } int want = repl(t, old, nw); Term_p q = j & 1 ? TBInsertReplPlain(bank, q0, qo, qn) : TBInsertRepl(bank, q0, DEREF_NEVER, qo, qn); chk(want, q); continue; } op -= nrepl;
      if (op < nreg_ops) { int t = pool[op]; if (nreg >= 4) continue; vh_note(" register(%s)", rshow(t)); Term_p u = mkun(t); Term_p q = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t, q); u = mkun(T("a")); Term_p qa = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(T("a"), qa); Eqn_p e = EqnAlloc(q, qa, bank, j & 1); Clause_p c = ClauseAlloc(e); ClauseSetInsert(cset[nreg & 1], c); rcl[nreg] = c; regs[nreg++] = t; continue; } op -= nreg_ops;
      if (op < nreg_ops) { int t = pool[op], t2 = pool[(op + 1) % np]; if (nrw >= 4) continue; for (i = 0; i < nrw; i++) if (rwl[i][0] == t) break; if (i < nrw) continue; vh_note(" link(%s to %s)", rshow(t), rshow(t2)); Term_p u = mkun(t), q = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t, q); u = mkun(t2); Term_p q2 = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t2, q2); TermAddRWLink(q, q2, demod, false, RWAlwaysRewritable); rwl[nrw][0] = t; rwl[nrw++][1] = t2; continue; } op -= nreg_ops;
      if (op < 3) { if (nform >= 2) continue; vh_note(" formula %d", op); Scanner_p in = escan(FORM[op]); WFormula_p f = WFormulaTSTPParse(in, bank); DestroyScanner(in); FormulaSetInsert(fset, f); lastform[nform++] = FORM[op]; for (i = 0; i < 2; i++) { flive[nform - 1][i] = -1; if (FT[op][i]) { int t = T(FT[op][i]); flive[nform - 1][i] = t; Term_p u = mkun(t), q = TBInsert(bank, u, DEREF_NEVER); freeun(u); chk(t, q); } } continue; } op -= 3;
      if (op == 0 || op == 1) { vh_note(" collect"); sgc++; long before = TBNonVarTermNodes(bank); long rec = TBGCCollect(bank); srec += rec; if (before - rec != TBNonVarTermNodes(bank)) vh_fail("count", "%ld terms before, %ld recovered, %ld left", before, rec, (long)TBNonVarTermNodes(bank)); static unsigned char m_[RMAX]; memset(m_, 0, rtn); for (i = 0; i < nreg; i++) if (regs[i] >= 0) { mark(regs[i], m_); mark(T("a"), m_); } for (i = 0; i < nform; i++) { int z; for (z = 0; z < 2; z++) if (flive[i][z] >= 0) mark(flive[i][z], m_); } for (i = 0; i < rtn; i++) { if (live[i] && !m_[i]) { live[i] = 0; ptr[i] = NULL; int z; for (z = 0; z < nrw; z++) if (rwl[z][0] == i) { rwl[z][0] = rwl[nrw - 1][0]; rwl[z][1] = rwl[nrw - 1][1]; nrw--; z--; } } else if (m_[i] && !live[i]) vh_fail("harness", "reachable but not live: %s", rshow(i)); }
          if (nform) { /* terms only inside the formula are allowed as well, but nothing else: everything found in the store must be reachable */ } continue; }
      if (op == 2 || op == 3) { if (!nreg) continue; int w = op == 2 ? 0 : nreg - 1; vh_note(" unregister(%s)", rshow(regs[w])); ClauseSetExtractEntry(rcl[w]); ClauseFree(rcl[w]); for (i = w; i < nreg - 1; i++) { regs[i] = regs[i + 1]; rcl[i] = rcl[i + 1]; } nreg--; continue; }
      if (op == 4) { if (!nform) continue; vh_note(" drop formula"); WFormula_p f = fset->anchor->succ; FormulaSetExtractEntry(f); WFormulaFree(f); for (i = 0; i + 1 < nform; i++) { flive[i][0] = flive[i + 1][0]; flive[i][1] = flive[i + 1][1]; lastform[i] = lastform[i + 1]; } nform--; done = 1; continue; }
      if (op == 5) { vh_note(" deregister+register set"); TBGCDeregisterClauseSet(bank, cset[1]); TBGCRegisterClauseSet(bank, cset[1]); continue; } }
    if (vh_nfail == g0) { if (done && !nform) { int sv = nform; nform = 1; whole(); nform = sv; } else whole(); }
    if (nform && vh_nfail == g0) { /* formulas still print the same */ WFormula_p f; i = 0; for (f = fset->anchor->succ; f != fset->anchor; f = f->succ, i++) { char *o_ = NULL; size_t sz = 0; FILE *m_ = open_memstream(&o_, &sz); WFormulaPrint(m_, f, true); fclose(m_); if (!strstr(o_, i < nform && lastform[i] == FORM[0] ? "p(g(" : lastform[i] == FORM[1] ? "h(a,a,b)" : "f(a)")) vh_fail("formula", "a registered formula is damaged: %s", o_); free(o_); } }
    h = h * 31 + TBNonVarTermNodes(bank); for (i = 0; i < nrw; i++) if (live[rwl[i][0]]) TermDeleteRWLink(ptr[rwl[i][0]]);
    ClauseSetFreeClauses(cset[0]); ClauseSetFreeClauses(cset[1]); TBGCDeregisterClauseSet(bank, cset[0]); TBGCDeregisterClauseSet(bank, cset[1]); ClauseSetFree(cset[0]); ClauseSetFree(cset[1]); while (fset->anchor->succ != fset->anchor) { WFormula_p f = fset->anchor->succ; FormulaSetExtractEntry(f); WFormulaFree(f); } TBGCDeregisterFormulaSet(bank, fset); FormulaSetFree(fset); ClauseFree(demod);
    { TypeBank_p tb = sig->type_bank; TBFree(bank); sig->type_bank = NULL; SigFree(sig); TypeBankFree(tb); } vh_outcome(h); vh_sample(); }
  vh_stat("collections", sgc); vh_stat("terms_recovered", srec); return vh_done(); }
