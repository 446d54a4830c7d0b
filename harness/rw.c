/* rw.c - C13: rewriting after every history of adding and removing equations and of earlier rewriting */
#include "ecore.h"
#include "ecl.h"
#include "eord.h"
#include <ccl_rewrite.h>
#include <ccl_pdtrees.h>
#include <cco_clausesplitting.h>
static int A, B, F, G, P; static OCB_p o; static int T(const char *s) { static const char *p; if (s) p = s; char c = *p++; if (c == 'x') return rvar(0); if (c == 'y') return rvar(1); if (c == 'z') return rvar(2); int f = c == 'a' ? A : c == 'b' ? B : c == 'f' ? F : c == 'g' ? G : P; int a[4], i; for (i = 0; i < rsym[f].ar; i++) a[i] = T(NULL); return rmk(f, rsym[f].ar, a); }
#define NE 24
static struct { int l, r; Clause_p c; int in, ever; } E[NE]; static int ne; static int Q[2000], nq; static ClauseSet_p dem[2]; static int strong, prefer; static SysDate lastdate;
/* one step with equation e (d: direction) at the top of t by a decreasing instance; -1 none, -2 result not determined */
static int *stp[NE][2]; static int minterm(void) { static int m_ = -1; if (m_ < 0) m_ = rof(OCBDesignatedMinTerm(o, bank, itype), 0); return m_; }
static int step0(int e, int d, int t) { int l = d ? E[e].r : E[e].l, r = d ? E[e].l : E[e].r, b[RB], v; memset(b, -1, sizeof b); if (RISVAR(t)) return -1; if (!rmatch(l, t, b)) return -1; for (v = 0; v < 4; v++) if (roccurs(rvar(v), r) && b[v] < 0) { if (strong) b[v] = minterm(); else return -1; } int n = rsub(r, b); if (!TOGreater(o, eterm(t), eterm(n), DEREF_NEVER, DEREF_NEVER)) return -1; return n; }
static int step(int e, int d, int t) { if (!stp[e][d]) { stp[e][d] = malloc(RMAX * sizeof(int)); memset(stp[e][d], 0x7f, RMAX * sizeof(int)); } if (stp[e][d][t] == 0x7f7f7f7f) stp[e][d][t] = step0(e, d, t); return stp[e][d][t]; }
static int rulelike(int e, int d) { return TOGreater(o, eterm(d ? E[e].r : E[e].l), eterm(d ? E[e].l : E[e].r), DEREF_NEVER, DEREF_NEVER); }
static int orient[NE]; /* 1: l>r, -1: r>l, 0 no */
static int renamed(int l, int t) { int b[RB]; memset(b, -1, sizeof b); if (!rmatch(l, t, b)) return 0; int v, w; for (v = 0; v < 4; v++) if (b[v] >= 0) { if (!RISVAR(b[v])) return 0; for (w = 0; w < v; w++) if (b[w] == b[v]) return 0; } return 1; }
/* can the current set reduce t?  lim: at the top only by proper instances; rules: oriented equations only */
static int reducible(int t, int rules, int lim) { int e, d, i; if (RISVAR(t)) return 0; for (e = 0; e < ne; e++) if (E[e].in) for (d = 0; d < 2; d++) { if (rules && !orient[e]) continue; if (orient[e] && (d ? -1 : 1) != orient[e]) continue; if (step(e, d, t) >= 0 && step(e, d, t) != t && !(lim && renamed(d ? E[e].r : E[e].l, t))) return e + 1; } for (i = 0; i < rt[t].n; i++) { int x = reducible(rt[t].a[i], rules, 0); if (x) return x; } return 0; }
static unsigned char seen[RMAX]; static int stk[RMAX], ns;
static void rpush(int t) { if (!seen[t]) { seen[t] = 1; stk[ns++] = t; } }
static void succ(int t, void (*f)(int)); static int ctxt[64], ctxi[64], cd; static void (*outf)(int);
static void emit(int t) { int k; for (k = cd - 1; k >= 0; k--) { int a[RARGS], i; for (i = 0; i < rt[ctxt[k]].n; i++) a[i] = rt[ctxt[k]].a[i]; a[ctxi[k]] = t; t = rmk(rt[ctxt[k]].f, rt[ctxt[k]].n, a); } outf(t); }
static void succ1(int t) { int e, d, i; if (RISVAR(t)) return; for (e = 0; e < ne; e++) if (E[e].ever) for (d = 0; d < 2; d++) { int n = step(e, d, t); if (n >= 0) emit(n); } for (i = 0; i < rt[t].n; i++) { ctxt[cd] = t; ctxi[cd++] = i; succ1(rt[t].a[i]); cd--; } }
static void succ(int t, void (*f)(int)) { outf = f; cd = 0; succ1(t); }
static int reachable(int from, int to) { if (from == to) return 1; ns = 0; int i; rpush(from); for (i = 0; i < ns && !seen[to]; i++) succ(stk[i], rpush); int r = seen[to]; for (i = 0; i < ns; i++) seen[stk[i]] = 0; return r; }
static void resetcell(Term_p t) { if (!t) return; if (TermIsRewritten(t)) TermDeleteRWLink(t); TermCellDelProp(t, TPIsRewritable | TPIsRRewritable | TPIsRewritten | TPIsRRewritten); t->rw_data.nf_date[0] = t->rw_data.nf_date[1] = SysDateCreationTime(); resetcell(t->lson); resetcell(t->rson); }
static void reset(void) { int i; for (i = 0; i < TERM_STORE_HASH_SIZE; i++) resetcell(bank->term_store.store[i]); }
static char *rules(void) { static char b[1000]; int e, l = 0; b[0] = 0; for (e = 0; e < ne; e++) if (E[e].in) l += sprintf(b + l, " %s=%s", rshow(E[e].l), rshow(E[e].r)); return b; }
static int normal(int t, RewriteLevel lv, uint64_t *h) { Term_p n = TermComputeLINormalform(o, bank, eterm(t), dem, lv, prefer, false, false); vh_trans++; int r = rof(n, 0); *h = *h * 31 + r; if (r < 0) { vh_fail("result", "%s is rewritten to something unknown", rshow(t)); return t; } int e = reducible(r, lv == RuleRewrite, 0); if (e) vh_fail("reducible", "%s is rewritten to %s, which is still reducible (now:%s)", rshow(t), rshow(r), rules()); if (!reachable(t, r)) vh_fail("unequal", "%s is rewritten to %s, which does not follow", rshow(t), rshow(r)); if (eterm(r) != n) vh_fail("sharing", "%s is rewritten to an unshared term", rshow(t)); return r; }
static int hasx(int t) { return !rt[t].ground; }
/* clauses for rewriting */
#define NC 60
static struct { int n; RLit l[2]; } C[NC]; static int nc; static ClauseSet_p proc, arch; static int cproc[NC];
static void addc(const char *s) { char b[100], *t, *sv; strcpy(b, s); for (t = strtok_r(b, "|", &sv); t; t = strtok_r(NULL, "|", &sv)) { RLit *l = &C[nc].l[C[nc].n++]; l->pos = *t != '~'; if (*t == '~') t++; if (*t == '=') { l->l = T(t + 1); char *u = t + 1; int need = 1; while (need) { need--; if (*u == 'f' || *u == 'p') need++; else if (*u == 'g') need += 2; u++; } l->r = T(u); } else { l->l = T(t); l->r = -1; } } nc++; }
static Clause_p mkc(int i, int lim) { Clause_p c = eclause(C[i].l, C[i].n); ClauseOrientLiterals(o, c); ClauseMarkMaximalTerms(o, c); if (lim) ClauseSetProp(c, CPLimitedRW); return c; }
static int limlit(Eqn_p e) { return EqnIsMaximal(e) && EqnIsPositive(e) && EqnIsOriented(e); }
static void normcl(Clause_p c, int i, int lim, uint64_t *h) { RLit before[4], after[4]; int n = rclause(c, before, 4), k; ClauseComputeLINormalform(o, bank, c, dem, FullRewrite, prefer, false); vh_trans++; int m_ = rclause(c, after, 4); if (m_ != n) { vh_fail("clause", "clause %d changes its number of literals", i); return; } Eqn_p e = c->literals; lim = lim && ClauseQueryProp(c, CPLimitedRW);
  for (k = 0; k < n; k++, e = e->next) { int ll = lim && limlit(e) && after[k].l == before[k].l; *h = *h * 31 + after[k].l * 7 + after[k].r; if (after[k].pos != before[k].pos || (after[k].r < 0) != (before[k].r < 0)) { vh_fail("clause", "literal %s changes its kind", rlshow(&before[k])); continue; } if (!reachable(before[k].l, after[k].l)) vh_fail("unequal", "in clause literal %s: %s is rewritten to %s, which does not follow", rlshow(&before[k]), rshow(before[k].l), rshow(after[k].l)); if (before[k].r >= 0 && !reachable(before[k].r, after[k].r)) vh_fail("unequal", "in clause literal %s: %s is rewritten to %s, which does not follow", rlshow(&before[k]), rshow(before[k].r), rshow(after[k].r));
    if (reducible(after[k].l, 0, ll)) vh_fail("reducible", "in clause literal %s: %s is still reducible (now:%s)", rlshow(&before[k]), rshow(after[k].l), rules()); if (after[k].r >= 0 && reducible(after[k].r, 0, 0)) vh_fail("reducible", "in clause literal %s: %s is still reducible (now:%s)", rlshow(&before[k]), rshow(after[k].r), rules()); }
  }
static void normclause(int i, int lim, uint64_t *h) { Clause_p c = mkc(i, lim); normcl(c, i, lim, h); ClauseFree(c); }
static int removed; static Clause_p victim[4000]; static int nvic; static void addeq(int i) { nvic = 0; Clause_p c = E[i].c; SysDate d = ClauseSetListGetMaxDate(dem, FullRewrite); SysDateInc(&d); ClauseSetProp(c, CPLimitedRW); 
  /* backward search over the processed clauses, as in the saturation loop */
  if (proc->members) { PStack_p st = PStackAlloc(); int want[NC], got[NC], k; Clause_p q; memset(want, 0, sizeof want); memset(got, 0, sizeof got); E[i].ever = 1; int sv[NE]; for (k = 0; k < ne; k++) { sv[k] = E[k].in; E[k].in = k == i; } for (k = 0, q = proc->anchor->succ; q != proc->anchor; q = q->succ, k++) { Eqn_p e; for (e = q->literals; e; e = e->next) { int l = rof(e->lterm, 0), r = e->rterm == bank->true_term ? -1 : rof(e->rterm, 0); if (reducible(l, 0, limlit(e)) || (r >= 0 && reducible(r, 0, 0))) want[k] = 1; } } for (k = 0; k < ne; k++) E[k].in = sv[k];
    FindRewritableClauses(o, proc, st, c, d); vh_trans++; while (!PStackEmpty(st)) { Clause_p f = PStackPopP(st); for (k = 0, q = proc->anchor->succ; q != proc->anchor && q != f; q = q->succ, k++); got[k]++; } for (k = 0, q = proc->anchor->succ; q != proc->anchor; k++) { Clause_p nx = q->succ; if (got[k] > 1 || (!got[k] != !want[k] && (want[k] || !removed))) vh_fail(want[k] ? "backward-missed" : "backward-wrong", "processed clause %d reported %d times as rewritable with %s=%s, expected %d", k, got[k], rshow(E[i].l), rshow(E[i].r), want[k]); if (got[k]) { ClauseSetExtractEntry(q); victim[nvic++] = q; } q = nx; } PStackFree(st); }
  c->date = d; ClauseSet_p s = dem[EqnIsOriented(c->literals) ? 0 : 1]; if (EqnIsOriented(c->literals)) TermCellSetProp(c->literals->lterm, TPIsRewritable); s->date = d; ClauseSetPDTIndexedInsert(s, c); E[i].in = E[i].ever = 1; int k; uint64_t h = 1; for (k = 0; k < nvic; k++) { RLit b4[4], af[4]; int n1 = rclause(victim[k], b4, 4); normcl(victim[k], 100 + k, 1, &h); int n2 = rclause(victim[k], af, 4); if (!removed && n1 == n2 && !memcmp(b4, af, n1 * sizeof(RLit))) vh_fail("backward-kept", "clause found rewritable with %s=%s is not rewritten: %s", rshow(E[i].l), rshow(E[i].r), rlshow(&b4[0])); ClauseSetInsert(arch, victim[k]); } }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("rw"); int M = atoi(vh_arg("--m")), K = atoi(vh_arg("--k")), oi = atoi(vh_arg("--ord")), i, j; strong = vh_arg("--strong") != NULL; prefer = vh_arg("--general") != NULL; A = rsymadd("a", 0, 0); B = rsymadd("b", 0, 0); F = rsymadd("f", 1, 0); G = rsymadd("g", 2, 0); P = rsymadd("p", 1, 1); fs[0] = A; fs[1] = B; fs[2] = F; fs[3] = G; fs[4] = P; nf = 5; ecore_bank(); for (i = 0; i < 6; i++) VarBankGetFreshVar(bank->vars, itype); int prec[8] = {0, 1, 2, 3, 4}, wt[8] = {1, 1, 1, 1, 1}; o = mkocb(oi ? LPO4 : KBO6, prec, wt, 1, 0); o->rewrite_strong_rhs_inst = strong;
  static const char *eq[][2] = {{"fa", "b"}, {"b", "a"}, {"fx", "a"}, {"ffx", "fx"}, {"gxy", "gyx"}, {"gxx", "x"}, {"gax", "x"}, {"fgxy", "gfxfy"}, {"gfxy", "gfyx"}, {"gxa", "gax"}, {"gxy", "gax"}, {"gab", "fb"}, {"gfxx", "gxfx"}, {"fgxy", "fgyx"}}; ne = sizeof eq / sizeof *eq; if (vh_arg("--ne")) ne = atoi(vh_arg("--ne"));
  for (i = 0; i < ne; i++) { E[i].l = T(eq[i][0]); E[i].r = T(eq[i][1]); orient[i] = rulelike(i, 0) ? 1 : rulelike(i, 1) ? -1 : 0; }
  nq = gen_terms(4, 2, Q, 2000); { int w = 0; for (i = 0; i < nq; i++) if (!RISVAR(Q[i]) && (rt[Q[i]].w <= 3 || rt[Q[i]].ground || i % 5 == 0)) Q[w++] = Q[i]; nq = w; } static const char *ext[] = {"gfafb", "ggabgba", "fgfaffb", "gggxyyx", "ffffb", "gfxgfaffx", NULL}; for (i = 0; ext[i]; i++) Q[nq++] = T(ext[i]);
  static const char *cls[] = {"pfa", "=fxa", "=gxygyx", "~=fab|pb", "=ffxfx", "=gaxx|~pfa", "=fgxygfxfy", "pgab|pgba", "=fab", "~=gabgba", NULL}; for (i = 0; cls[i]; i++) addc(cls[i]);
  int extra = 5; long srem = 0;
  while (vh_next()) { int it[4], n = 0, k = 0, ops[12]; for (i = 0; i < M; i++) { int lo = i ? it[i - 1] + 1 : 0; if (ne - lo < M - i) { n = -1; break; } it[i] = lo + choose(ne - lo - (M - 1 - i)); } if (n < 0 || !vh_mine()) continue; int nops = M + extra; while (k < K) { int op = choose(nops + 1); if (op == nops) break; ops[k++] = op; }
    vh_states++; for (i = 0; i < ne; i++) { E[i].in = E[i].ever = 0; } dem[0] = ClauseSetAlloc(); dem[1] = ClauseSetAlloc(); dem[0]->demod_index = PDTreeAlloc(bank); dem[1]->demod_index = PDTreeAlloc(bank); proc = ClauseSetAlloc(); arch = ClauseSetAlloc(); removed = 0; long g0 = vh_nfail; uint64_t h = 7; ClauseSet_p gone = ClauseSetAlloc();
    for (i = 0; i < M; i++) { RLit l = {1, E[it[i]].l, E[it[i]].r}; E[it[i]].c = eclause(&l, 1); ClauseOrientLiterals(o, E[it[i]].c); ClauseMarkMaximalTerms(o, E[it[i]].c); vh_note(" [%d] %s", i, rlshow(&l)); } vh_note(":");
    for (j = 0; j < k && vh_nfail == g0; j++) { int op = ops[j]; if (op < M) { int e = it[op]; if (E[e].in) { vh_note(" -%d", op); srem++; removed = 1; ClauseSetExtractEntry(E[e].c); E[e].in = 0; } else { vh_note(" +%d", op); addeq(e); } continue; } op -= M;
      switch (op) { case 0: vh_note(" norm-even"); for (i = 0; i < nq && vh_nfail == g0; i += 2) normal(Q[i], FullRewrite, &h); break; case 1: vh_note(" norm-odd"); for (i = 1; i < nq && vh_nfail == g0; i += 2) normal(Q[i], FullRewrite, &h); break; case 2: vh_note(" norm-rules"); for (i = 0; i < nq && vh_nfail == g0; i++) normal(Q[i], RuleRewrite, &h); break;
        case 3: vh_note(" clauses"); for (i = 0; i < nc && vh_nfail == g0; i++) normclause(i, 0, &h); break;         case 4: vh_note(" process"); for (i = 0; i < nc && vh_nfail == g0; i++) { Clause_p c = mkc(i, i & 1), q; ClauseComputeLINormalform(o, bank, c, dem, FullRewrite, prefer, false); ClauseOrientLiterals(o, c); ClauseMarkMaximalTerms(o, c); ClauseSetProp(c, CPLimitedRW); if (ClauseIsTrivial(c)) ClauseSetInsert(arch, c); else ClauseSetInsert(proc, c); (void)q; } break; } }
    for (i = 0; i < nq && vh_nfail == g0; i++) { int r = normal(Q[i], FullRewrite, &h); if (vh_nfail == g0 && normal(r, FullRewrite, &h) != r) vh_fail("idempotent", "normal form %s of %s is rewritten again", rshow(r), rshow(Q[i])); if (!(i & 7) && vh_nfail == g0 && normal(Q[i], FullRewrite, &h) != r) vh_fail("unstable", "%s has a different normal form the second time", rshow(Q[i])); }
    for (i = 0; i < nc && vh_nfail == g0; i++) normclause(i, 0, &h);
    reset(); for (i = 0; i < M; i++) { if (E[it[i]].in) ClauseSetExtractEntry(E[it[i]].c); ClauseFree(E[it[i]].c); } ClauseSetFreeClauses(proc); ClauseSetFreeClauses(arch); ClauseSetFree(proc); ClauseSetFree(arch); ClauseSetFree(gone); ClauseSetFree(dem[0]); ClauseSetFree(dem[1]); vh_outcome(h); vh_sample(); }
  (void)hasx; vh_stat("removals", srem); vh_stat("query_terms", nq); return vh_done(); }
