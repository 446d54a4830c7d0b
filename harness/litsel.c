/* litsel.c - C30: every selection strategy on every clause over a literal pool */
#include "ecore.h"
#include "ecl.h"
#include "eord.h"
#include <che_litselection.h>
#include <che_proofcontrol.h>
static RLit P[60]; static int np; static char *names[400]; static int nn; static OCB_p ocbs[4];
static void lits(int n, const int *l, RLit *o) { int i; for (i = 0; i < n; i++) o[i] = P[l[i]]; }
static ProofControl_p pc; static int lastsel;
/* run the selection on a fresh clause; returns selected literals as bit set (by position), checks literals */
static int runsel(const RLit *l, int n, int into, int conj, int remark, int *maxset) { Clause_p e = eclause(l, n); int i; RLit r[6]; Eqn_p h; if (into >= 0) { for (h = e->literals, i = 0; h; h = h->next, i++) if (into >> i & 1) EqnSetProp(h, EPIsPMIntoLit); } if (conj) ClauseSetTPTPType(e, CPTypeNegConjecture); e->weight = ClauseStandardWeight(e); if (remark) ClauseMarkMaximalTerms(pc->ocb, e); /* as after an earlier marking */
  DoLiteralSelection(pc, e); int s = 0, k = rclause(e, r, 6); vh_trans++; if (k != n) { vh_fail("literals", "selection changes the number of literals"); ClauseFree(e); return -1; } for (h = e->literals, i = 0; h; h = h->next, i++) { int same = r[i].pos == l[i].pos && ((r[i].l == l[i].l && r[i].r == l[i].r) || (r[i].l == l[i].r && r[i].r == l[i].l)); if (!same) { vh_fail("literals", "selection changes literal %d", i); ClauseFree(e); return -1; } if (EqnIsSelected(h)) s |= 1 << i; }
  /* the marks in force when the clause is used: recomputed only if the clause is not flagged as marked */
  ClauseCondMarkMaximalTerms(pc->ocb, e); int m1 = 0, m2 = 0; for (h = e->literals, i = 0; h; h = h->next, i++) if (EqnIsMaximal(h)) m1 |= 1 << i; ClauseMarkMaximalTerms(pc->ocb, e); for (h = e->literals, i = 0; h; h = h->next, i++) if (EqnIsMaximal(h)) m2 |= 1 << i; if (m1 != m2) vh_fail("stale-marks", "after selection the clause keeps maximality marks %x, with the selected literals they should be %x", m1, m2); if (s && (m2 & ~s)) vh_fail("marks", "literals are selected, but others (%x) take part in inferences", m2 & ~s); *maxset = m2; ClauseFree(e); return s; }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("litsel"); int n, i, k, maxn = atoi(vh_arg("--n")); int A = rsymadd("a", 0, 0), F = rsymadd("f", 1, 0), G = rsymadd("g", 2, 0), p = rsymadd("p", 1, 1), q = rsymadd("q", 2, 1), r0 = rsymadd("r", 0, 1); fs[0] = A; fs[1] = F; fs[2] = G; fs[3] = p; fs[4] = q; fs[5] = r0; nf = 6; ecore_bank();
  int x = rvar(0), y = rvar(1), a = rmk(A, 0, NULL), fx = rmk(F, 1, &x), fy = rmk(F, 1, &y), fa = rmk(F, 1, &a); int t2[2] = {x, y}; int gxy = rmk(G, 2, t2); t2[1] = x; int gxx = rmk(G, 2, t2); int ffx = rmk(F, 1, &fx); (void)gxx;
#define PRED(f, n, ...) { int v[] = {__VA_ARGS__}; for (k = 0; k < 2; k++) { P[np].pos = k; P[np].l = rmk(f, n, v); P[np++].r = -1; } }
#define EQ(s, t) for (k = 0; k < 2; k++) { P[np].pos = k; P[np].l = s; P[np++].r = t; }
  PRED(p, 1, x) PRED(p, 1, fa) PRED(q, 2, x, y) PRED(q, 2, fy, a) EQ(x, y) EQ(fx, a) EQ(y, fx) PRED(r0, 0, 0) EQ(fx, fy) EQ(gxy, ffx) PRED(p, 1, y) EQ(a, fa)
  if (vh_arg("--pool")) np = atoi(vh_arg("--pool"));
  { DStr_p d = DStrAlloc(); LitSelAppendNames(d); char *s = strdup(DStrView(d)), *tk; for (tk = strtok(s, ", "); tk; tk = strtok(NULL, ", ")) names[nn++] = tk; }
  vh_stat("strategies", vh_shard == 0 ? nn : 0); int pa[8] = {0, 1, 2, 3, 4, 5}, pb[8] = {5, 4, 3, 2, 1, 0}, w1[8] = {1, 1, 1, 1, 1, 1}, w2[8] = {1, 3, 2, 1, 4, 1}; ocbs[0] = mkocb(KBO6, pa, w1, 1, 0); ocbs[1] = mkocb(LPO4, pa, w1, 1, 0); ocbs[2] = mkocb(KBO6, pb, w2, 1, 0); ocbs[3] = mkocb(LPO4, pb, w2, 1, 0); pc = ProofControlAlloc(); HeuristicParms_p hp = &pc->heuristic_parms;
  while (vh_next()) { int si = choose(nn), oi = choose(vh_thorough ? 4 : 2), c0 = choose(np); if (!vh_mine()) continue; vh_states++; pc->ocb = ocbs[vh_thorough ? oi : oi * 3]; hp->selection_strategy = GetLitSelFun(names[si]); char *nm_ = names[si]; vh_note("%s (ordering %d): ", nm_, oi); int nlen = vh_note_len; long g0 = vh_nfail; uint64_t h = 1; if (strcmp(GetLitSelName(hp->selection_strategy), nm_) && hp->selection_strategy != GetLitSelFun(GetLitSelName(hp->selection_strategy))) vh_fail("name", "strategy is reported as %s", GetLitSelName(hp->selection_strategy));
    
    for (n = 1; n <= maxn && vh_nfail == g0; n++) { long tot = 1, z; for (i = 1; i < n; i++) tot *= np; for (z = 0; z < tot && vh_nfail == g0; z++) { int l[6]; long d = z; l[0] = c0; for (i = 1; i < n; i++) { l[i] = d % np; d /= np; } RLit cl[6], c2[6]; lits(n, l, c2); { int w_ = 0; for (i = 0; i < n; i++) if (c2[i].pos) cl[w_++] = c2[i]; for (i = 0; i < n; i++) if (!c2[i].pos) cl[w_++] = c2[i]; } /* clauses list positive literals first */ int neg = 0, pos = 0, mx, mx2, negset = 0; for (i = 0; i < n; i++) { if (cl[i].pos) pos++; else neg++, negset |= 1 << i; }
        hp->pos_lit_sel_min = hp->neg_lit_sel_min = hp->all_lit_sel_min = 0; hp->pos_lit_sel_max = hp->neg_lit_sel_max = hp->all_lit_sel_max = LONG_MAX; hp->weight_sel_min = 0; hp->inherit_paramod_lit = hp->inherit_goal_pm_lit = hp->inherit_conj_pm_lit = false;
        vh_note_len = nlen; if (vh_replaying) for (i = 0; i < n; i++) vh_note("%s%s", i ? " | " : "", rlshow(&cl[i]));
        int s = runsel(cl, n, -1, 0, 0, &mx); if (s < 0) break;
        if (s && !(s & negset)) vh_fail("positive", "only positive literals are selected"); 
        if ((s & ~negset) && !strchr("PMHG", nm_[0])) vh_fail("positive2", "a positive literal is selected by a strategy that selects negative ones only");
        { int s2 = runsel(cl, n, -1, 0, 1, &mx2); if (s2 >= 0 && !s2 != !s) vh_fail("history", "selected %x on a fresh clause, %x on one marked before: one of them selects nothing", s, s2); }
        /* limits on when selection takes place */
        if (n <= 2) { hp->pos_lit_sel_min = 1; int t = runsel(cl, n, -1, 0, 0, &mx2); if (t > 0 && pos < 1) vh_fail("limit", "selection although there are too few positive literals"); if (pos >= 1 && !t != !s) vh_fail("limit2", "no selection although within limits"); hp->pos_lit_sel_min = 0; hp->pos_lit_sel_max = 0; t = runsel(cl, n, -1, 0, 0, &mx2); if (t > 0 && pos > 0) vh_fail("limit", "selection although there are too many positive literals"); if (pos == 0 && !t != !s) vh_fail("limit2", "no selection although within limits"); hp->pos_lit_sel_max = LONG_MAX;
          hp->neg_lit_sel_min = 2; t = runsel(cl, n, -1, 0, 0, &mx2); if (t > 0 && neg < 2) vh_fail("limit", "selection although there are too few negative literals"); hp->neg_lit_sel_min = 0; hp->neg_lit_sel_max = 1; t = runsel(cl, n, -1, 0, 0, &mx2); if (t > 0 && neg > 1) vh_fail("limit", "selection although there are too many negative literals"); hp->neg_lit_sel_max = LONG_MAX; hp->all_lit_sel_min = 2; t = runsel(cl, n, -1, 0, 0, &mx2); if (t > 0 && n < 2) vh_fail("limit", "selection although there are too few literals"); if (n >= 2 && !t != !s) vh_fail("limit2", "no selection although within limits"); hp->all_lit_sel_min = 0; hp->all_lit_sel_max = 1; t = runsel(cl, n, -1, 0, 0, &mx2); if (t > 0 && n > 1) vh_fail("limit", "selection although there are too many literals"); hp->all_lit_sel_max = LONG_MAX;
          /* inherited literals */
          int in, which; for (which = 0; which < 3; which++) { hp->inherit_paramod_lit = which == 0; hp->inherit_goal_pm_lit = which == 1; hp->inherit_conj_pm_lit = which == 2; for (in = 1; in < 1 << n; in++) { t = runsel(cl, n, in, which == 2, 0, &mx2); int on = which == 0 || (which == 1 && pos == 0) || which == 2; if (t < 0) continue; if (t && !(t & negset)) vh_fail("positive", "only positive literals are selected when inheriting"); if (on && (in & negset) && t != in) vh_fail("inherit", "inherited %x, selected %x", in, t); } } hp->inherit_paramod_lit = hp->inherit_goal_pm_lit = hp->inherit_conj_pm_lit = false; }
        if (vh_nfail > g0 && !vh_replaying) break; h = h * 17 + s; int v; for (v = 0; v < 2; v++) if (eterm(rvar(v))->binding) vh_fail("bindings", "a variable is left bound"); } }
    vh_note_len = nlen; vh_outcome(h); vh_sample(); }
  return vh_done(); }
