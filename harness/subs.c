/* subs.c - C11: every pair of clauses over a literal pool: subsumption and condensation by the real code against the definition */
#include "ecore.h"
#include "ecl.h"
#include "eord.h"
#include <ccl_subsumption.h>
#include <ccl_condensation.h>
static RLit P[40000]; static int np; typedef struct { int n, l[4]; Clause_p e; } C; static C *cs; static int ncs, MAXC = 400000; static OCB_p o;
static void addc(int n, const int *l) { if (ncs >= MAXC) abort(); C *c = &cs[ncs++]; int i; c->n = n; for (i = 0; i < n; i++) c->l[i] = l[i]; c->e = NULL; }
static void lits(const C *c, RLit *o_) { int i; for (i = 0; i < c->n; i++) o_[i] = P[c->l[i]]; }
static void prep(Clause_p e) { ClauseOrientLiterals(o, e); e->weight = ClauseStandardWeight(e); ClauseSubsumeOrderSortLits(e); }
static Clause_p mk(C *c, int rot) { RLit l[4], m[4]; lits(c, l); int i; for (i = 0; i < c->n; i++) { m[i] = l[(i + rot) % c->n]; if (rot && m[i].r >= 0) { int t = m[i].l; m[i].l = m[i].r; m[i].r = t; } } Clause_p e = eclause(m, c->n); prep(e); return e; }
static char *cshow(const C *c) { static char b[4][3000]; static int w; char *s = b[w = (w + 1) & 3]; int i, l = 0; s[0] = 0; for (i = 0; i < c->n; i++) l += sprintf(s + l, "%s%s", i ? " | " : "", rlshow(&P[c->l[i]])); if (!c->n) strcpy(s, "$false"); return s; }
static int norm(const RLit *l, int n, RLit *out) { int i, j, k = 0; for (i = 0; i < n; i++) { if (!l[i].pos && l[i].l == l[i].r) continue; for (j = 0; j < k; j++) if (out[j].pos == l[i].pos && ((out[j].l == l[i].l && out[j].r == l[i].r) || (out[j].r >= 0 && out[j].l == l[i].r && out[j].r == l[i].l))) break; if (j == k) out[k++] = l[i]; } return k; }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("subs"); const char *mode = vh_arg("--pool"); int nc = atoi(vh_arg("--c")), nd = atoi(vh_arg("--d")), i, j, k, m; int A = rsymadd("a", 0, 0), F = rsymadd("f", 1, 0), G = rsymadd("g", 2, 0), p = rsymadd("p", 1, 1), q = rsymadd("q", 2, 1); fs[0] = A; fs[1] = F; fs[2] = G; fs[3] = p; fs[4] = q; nf = 5; ecore_bank();
  int x = rvar(0), y = rvar(1), z = rvar(2), a = rmk(A, 0, NULL), fx = rmk(F, 1, &x), fy = rmk(F, 1, &y), fa = rmk(F, 1, &a); int t2[2]; t2[0] = x; t2[1] = y; int gxy = rmk(G, 2, t2); t2[1] = x; int gxx = rmk(G, 2, t2); t2[0] = fx; t2[1] = a; int gfa = rmk(G, 2, t2); t2[0] = y; t2[1] = x; int gyx = rmk(G, 2, t2); int ffx = rmk(F, 1, &fx);
#define PRED(f, n, ...) { int v[] = {__VA_ARGS__}; for (k = 0; k < 2; k++) { P[np].pos = k; P[np].l = rmk(f, n, v); P[np++].r = -1; } }
#define EQ(s, t) for (k = 0; k < 2; k++) { P[np].pos = k; P[np].l = s; P[np++].r = t; }
  if (!strcmp(mode, "pred")) { PRED(p, 1, x) PRED(p, 1, y) PRED(p, 1, a) PRED(p, 1, fx) PRED(q, 2, x, y) PRED(q, 2, y, x) PRED(q, 2, x, x) PRED(q, 2, a, x) PRED(q, 2, y, z) PRED(q, 2, a, fy) PRED(q, 2, x, fx) }
  else if (!strcmp(mode, "eq")) { EQ(x, y) EQ(x, a) EQ(y, fx) EQ(fx, fy) EQ(fx, a) EQ(fa, a) EQ(x, fx) EQ(gxy, x) EQ(gxy, gyx) EQ(gxx, a) EQ(y, z) }
  else if (!strcmp(mode, "mix")) { EQ(x, y) EQ(fx, a) EQ(y, fa) EQ(gxy, fy) PRED(p, 1, x) PRED(p, 1, y) PRED(p, 1, fa) PRED(q, 2, x, y) PRED(q, 2, y, a) PRED(q, 2, fx, x) }
  else { EQ(x, y) EQ(x, a) EQ(fx, a) EQ(fx, fy) EQ(fx, x) EQ(gxy, gyx) EQ(gxy, x) EQ(gfa, gxx) EQ(gxx, fx) EQ(ffx, fa) EQ(y, fx) EQ(a, gxy) EQ(gxy, gxx) EQ(ffx, fx) PRED(p, 1, gxy) PRED(p, 1, x) PRED(p, 1, fa) PRED(q, 2, gxy, a) PRED(q, 2, x, a) PRED(q, 2, x, x) }
  long climit = vh_arg("--climit") ? atol(vh_arg("--climit")) : 0;
  if (!strcmp(mode, "unit")) { np = 0; int B = rsymadd("b", 0, 0); fs[nf++] = B; ecore_bank(); int b = rmk(B, 0, NULL), T[400], nt = 0, n0, n1, u, v; T[nt++] = a; T[nt++] = b; T[nt++] = x; T[nt++] = y; n0 = nt; for (u = 0; u < n0; u++) T[nt++] = rmk(F, 1, &T[u]); for (u = 0; u < n0; u++) for (v = 0; v < n0; v++) { int w[2] = {T[u], T[v]}; T[nt++] = rmk(G, 2, w); } n1 = nt; for (u = 0; u < n1; u++) for (v = 0; v < u; v++) EQ(T[u], T[v]) climit = np + 1; /* subsuming equations: all with sides of depth 0 and 1 */
    for (u = n0; u < n1; u++) T[nt++] = rmk(F, 1, &T[u]); for (u = n0; u < n1; u++) for (v = 0; v < n0; v += 2) { int w[2] = {T[u], T[v]}, w2[2] = {T[v], T[u]}; T[nt++] = rmk(G, 2, w); if (v) T[nt++] = rmk(G, 2, w2); } for (u = n1; u < nt; u++) for (v = 0; v < u; v++) if (u % 3 == v % 3 || v < n1) EQ(T[u], T[v]) }
  int prec[8] = {0, 1, 2, 3, 4, 5, 6}, wt[8] = {1, 1, 1, 1, 1, 1, 1}; o = mkocb(KBO6, prec, wt, 1, 0); cs = malloc(sizeof(C) * MAXC); int l[4]; int mx = nc > nd ? nc : nd, off[6]; addc(0, l); off[0] = 0;
  for (m = 1; m <= mx; m++) { off[m] = ncs; int ix[4] = {0}; while (1) { addc(m, ix); for (i = m - 1; i >= 0 && ix[i] == np - 1; i--); if (i < 0) break; ix[i]++; for (j = i + 1; j < m; j++) ix[j] = ix[i]; } } off[mx + 1] = ncs; int endc = climit ? climit : off[nc + 1], endd = off[nd + 1]; long step = vh_arg("--step") ? atol(vh_arg("--step")) : 1; long nyes = 0;
  while (vh_next()) { int ci = choose(endc); if (!vh_mine()) continue; vh_states++; C *c = &cs[ci]; RLit cl[4], dl[4], r[8]; lits(c, cl); vh_note("%s", cshow(c)); int nlen = vh_note_len; Clause_p rot[4]; int nrot = c->n > 1 ? c->n : c->n ? 2 : 1; for (i = 0; i < nrot; i++) rot[i] = mk(c, i); uint64_t h = 3; long g0 = vh_nfail;
    /* condensation, for every literal order */
    if (c->n > 1 && vh_arg("--cond")) for (i = 0; i < nrot; i++) { Clause_p e = mk(c, i); RLit b0[8]; int n0 = rclause(e, b0, 8); bool done = Condense(e); int n1 = rclause(e, r, 8); vh_trans++; if (n1 < 0) { vh_fail("condense-form", "condensing gives an unreadable clause"); break; }
        RLit no[8], nr[8]; int ko = norm(cl, c->n, no), kr = norm(r, n1, nr); if (!done) { for (j = 0; j < n0 && n0 == n1; j++) if (b0[j].l != r[j].l || b0[j].r != r[j].r || b0[j].pos != r[j].pos) break; if (n0 != n1 || j < n0) vh_fail("condense-changed", "not condensed, but the clause is changed"); }
        else { if (n1 >= n0) vh_fail("condense-shorter", "condensing gives a clause that is not shorter"); if (!rsubs(nr, kr, cl, c->n, 0)) vh_fail("condense-implies", "the condensed clause does not imply the original"); int b[RB]; int st[256], ns = 0, u; for (j = 0; j < c->n; j++) { st[ns++] = cl[j].l; if (cl[j].r >= 0) st[ns++] = cl[j].r; } for (j = 0; j < kr; j++) { st[ns++] = nr[j].l; if (nr[j].r >= 0) st[ns++] = nr[j].r; } for (u = 0; u < ns; u++) for (j = 0; j < rt[st[u]].n && ns < 250; j++) st[ns++] = rt[st[u]].a[j]; { int w = 0, q; for (u = 0; u < ns; u++) { if (rsym[rt[st[u]].f < 0 ? 0 : rt[st[u]].f].pred) continue; for (q = 0; q < w && st[q] != st[u]; q++); if (q == w) st[w++] = st[u]; } ns = w; }
          int okimp = 0; long sg, tot = (long)ns * ns * ns; for (sg = 0; sg < tot && !okimp; sg++) { int sb[16]; memset(sb, -1, sizeof sb); sb[0] = st[sg % ns]; sb[1] = st[sg / ns % ns]; sb[2] = st[sg / ns / ns]; RLit in[8], nn[8]; for (j = 0; j < ko; j++) { in[j] = no[j]; in[j].l = rsub(no[j].l, sb); if (no[j].r >= 0) in[j].r = rsub(no[j].r, sb); } int kn = norm(in, ko, nn); for (j = 0; j < kn; j++) { for (u = 0; u < kr; u++) if (nn[j].pos == nr[u].pos && ((nn[j].l == nr[u].l && nn[j].r == nr[u].r) || (nn[j].r >= 0 && nn[j].r == nr[u].l && nn[j].l == nr[u].r))) break; if (u == kr) break; } if (j == kn) okimp = 1; }
          if (!okimp) vh_fail("condense-implied", "the condensed clause is not implied by the original");
          if (e->pos_lit_no + e->neg_lit_no != n1) vh_fail("condense-count", "literal counts are wrong after condensing"); if (e->weight != ClauseStandardWeight(e)) vh_fail("condense-weight", "weight is wrong after condensing"); (void)b; }
        h = h * 3 + done; ClauseFree(e); }
    int start = ci % step; for (i = start; i < endd && vh_nfail == g0; i += step) { C *d = &cs[i]; lits(d, dl); if (!d->e) d->e = mk(d, 0); int want = c->n == 1 ? runitsubs(cl, dl, d->n) : rsubs(cl, c->n, dl, d->n, 1); if (c->n == 1) { int taut = 0; for (j = 0; j < d->n; j++) if (dl[j].pos && dl[j].l == dl[j].r) taut = 1; if (taut) continue; }
        for (k = 0; k < nrot; k++) { int got = ClauseSubsumesClause(rot[k], d->e); vh_trans++; if (got != want) { vh_note(" / %s", cshow(d)); vh_fail(want ? "missed" : "wrong", "subsumption %s", want ? "holds but is not found" : "is reported but does not hold"); vh_note_len = nlen; break; } } nyes += want; h = h * 31 + want;
        int v; for (v = 0; v < 3; v++) if (eterm(rvar(v))->binding) { vh_note(" / %s", cshow(d)); vh_fail("bindings", "a variable is left bound"); eterm(rvar(v))->binding = NULL; } }
    for (i = 0; i < nrot; i++) ClauseFree(rot[i]); vh_note_len = nlen; vh_outcome(h); vh_sample(); }
  vh_stat("pairs_that_subsume", nyes); return vh_done(); }
