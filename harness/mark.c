/* mark.c - C08: every clause of up to 3 literals (all literal orders, both ways of writing an equation) under every precedence:
   orientation and maximality marks against the multiset extension of the term ordering */
#include "ecore.h"
#include "eord.h"
static int U[4000], nu, T[100], nt; static int *uidx; static unsigned char *M; static int NT; /* index NT: the truth constant */
#define LMAX 2000
typedef struct { int pos, l, r; } Lit; static Lit L[LMAX]; static int nl; static Eqn_p E[3][LMAX]; static int nimg = 0, img[8]; static OCB_p o; static LiteralCmp lc;
static int ix(int t) { return t < 0 ? NT : uidx[t]; }
static CompareResult tc(int a, int b) { return M[(size_t)a * (nu + 1) + b]; }
static CompareResult mcmp(const int *x, int nx, const int *y, int ny) { int a[4], b[4], na = 0, nb = 0, i, j, uy[4] = {0}; for (i = 0; i < nx; i++) { for (j = 0; j < ny; j++) if (!uy[j] && y[j] == x[i]) break; if (j < ny) uy[j] = 1; else a[na++] = x[i]; } for (j = 0; j < ny; j++) if (!uy[j]) b[nb++] = y[j];
  if (!na && !nb) return to_equal; int g = 1, l = 1; for (j = 0; j < nb; j++) { for (i = 0; i < na; i++) if (tc(a[i], b[j]) == to_greater) break; if (i == na) g = 0; } for (i = 0; i < na; i++) { for (j = 0; j < nb; j++) if (tc(b[j], a[i]) == to_greater) break; if (j == nb) l = 0; } return g && na ? to_greater : l && nb ? to_lesser : to_uncomparable; }
static int fpr(int t) { int i; for (i = 0; i < nf; i++) if (fs[i] == rt[t].f) return i; return -1; }
static const int *gprec;
static CompareResult litcmp(int x, int y, const int *s) { Lit *p = &L[x], *q = &L[y]; int a[4], b[4], na = 0, nb = 0; if (lc == LCNoCmp) return to_uncomparable;
  if (lc != LCNormal) { int e1 = p->r >= 0, e2 = q->r >= 0; if (e1 != e2) return (e1 == (lc == LCTFOEqMax)) ? to_greater : to_lesser; if (!e1) { int pa = gprec[fpr(p->l)], pb = gprec[fpr(q->l)]; if (pa != pb) return pa > pb ? to_greater : to_lesser; } }
  int pl = s ? rsub(p->l, s) : p->l, pr = p->r >= 0 && s ? rsub(p->r, s) : p->r, ql = s ? rsub(q->l, s) : q->l, qr = q->r >= 0 && s ? rsub(q->r, s) : q->r; int A[2][2] = {{ix(pl), ix(pr)}}, B[2][2] = {{ix(ql), ix(qr)}};
  if (p->pos == q->pos) return mcmp(A[0], 2, B[0], 2);
  /* two-fold multisets: positive {{l},{r}}, negative {{l,r}} */
  int sw = !p->pos; int *P = sw ? B[0] : A[0], *Q = sw ? A[0] : B[0]; CompareResult c0 = mcmp(P, 1, Q, 2), c1 = mcmp(P + 1, 1, Q, 2), r = c0 == to_greater || c1 == to_greater ? to_greater : c0 == to_lesser && c1 == to_lesser ? to_lesser : to_uncomparable; (void)a; (void)b; (void)na; (void)nb; return sw ? inv(r) : r; }
static void showcl(const int *c, int n) { int i; for (i = 0; i < n; i++) { Lit *p = &L[c[i]]; if (p->r < 0) vh_note("%s%s%s", i ? " | " : "", p->pos ? "" : "~", rshow(p->l)); else vh_note("%s%s%s%s", i ? " | " : "", rshow(p->l), p->pos ? "=" : "!=", rshow(p->r)); } }
static void addt(int t) { if (uidx[t] < 0) { uidx[t] = nu; U[nu++] = t; } }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("mark"); int i, j, k, v, maxn = atoi(vh_arg("--n")), w = atoi(vh_arg("--w")); int npv = vh_arg("--pv") ? atoi(vh_arg("--pv")) : 12; int ca = rsymadd("a", 0, 0), cf = rsymadd("f", 1, 0), cg = rsymadd("g", 2, 0), cp = rsymadd("p", 1, 1), cq = rsymadd("q", 0, 1); fs[0] = ca; fs[1] = cf; fs[2] = cg; fs[3] = cp; fs[4] = cq; nf = 5; ecore_bank(); (void)ca; (void)cf; (void)cg;
  uidx = malloc(sizeof(int) * RMAX); memset(uidx, -1, sizeof(int) * RMAX); nt = gen_terms(w, 2, T, 100); img[nimg++] = rmk(ca, 0, NULL); { int x = rvar(1); img[nimg++] = x; img[nimg++] = rmk(cf, 1, &x); int y[2] = {x, x}; img[nimg++] = rmk(cg, 2, y); }
  for (i = 0; i < nt; i++) for (j = i; j < nt; j++) for (k = 0; k < 2; k++) for (v = 0; v < (i == j ? 1 : 2); v++) { L[nl].pos = k; L[nl].l = v ? T[j] : T[i]; L[nl].r = v ? T[i] : T[j]; nl++; }
  for (k = 0; k < 2; k++) { for (i = 0; i < nt; i++) { L[nl].pos = k; L[nl].l = rmk(cp, 1, &T[i]); L[nl].r = -1; nl++; } L[nl].pos = k; L[nl].l = rmk(cq, 0, NULL); L[nl++].r = -1; }
  for (i = 0; i < nl; i++) { addt(L[i].l); if (L[i].r >= 0) addt(L[i].r); for (j = 0; j < nimg; j++) { int s[16]; memset(s, -1, sizeof s); s[0] = img[j]; addt(rsub(L[i].l, s)); if (L[i].r >= 0) addt(rsub(L[i].r, s)); } }
  NT = nu; M = malloc((size_t)(nu + 1) * (nu + 1)); for (i = 0; i < 3; i++) for (j = 0; j < nl; j++) E[i][j] = EqnAlloc(eterm(L[j].l), L[j].r < 0 ? bank->true_term : eterm(L[j].r), bank, L[j].pos);
  for (i = 0; i < nu; i++) eterm(U[i]);
  static const TermOrdering TY[] = {KBO6, LPO4, KBO, LPO}; static const LiteralCmp LC[] = {LCNormal, LCTFOEqMax, LCTFOEqMin, LCNoCmp}; int last = -1;
  while (vh_next()) { int ty = choose(vh_thorough ? 4 : 2), pv = choose(vh_thorough ? 120 : npv), c0; lc = LC[choose(vh_thorough ? 4 : 3)]; int cfg = (ty * 1000 + pv) * 10 + lc; if (!vh_thorough) pv = pv * (120 / npv) + (pv * 7) % (120 / npv); c0 = choose(nl); if (!vh_mine()) continue; vh_states++;
    int prec[8], used = 0, wt[8] = {1, pv % 3 == 0 ? 1 : 2, pv % 2, 1, 1}, d = pv; for (i = 0; i < nf; i++) { int c = d % (nf - i); d /= (nf - i); for (k = 0;; k++) if (!(used >> k & 1)) if (c-- == 0) break; used |= 1 << k; prec[i] = k; } gprec = prec;
    if (cfg != last) { last = cfg; if (o) OCBFree(o); o = mkocb(TY[ty], prec, wt, 1, 0); o->lit_cmp = lc; for (i = 0; i <= nu; i++) for (j = 0; j <= nu; j++) M[(size_t)i * (nu + 1) + j] = i == j ? to_equal : TOCompare(o, i == nu ? bank->true_term : eterm(U[i]), j == nu ? bank->true_term : eterm(U[j]), DEREF_NEVER, DEREF_NEVER); }
    vh_note("%s prec", ty & 1 ? "LPO" : "KBO"); for (i = 0; i < nf; i++) vh_note(" %s:%d w%d", rsym[fs[i]].name, prec[i], wt[i]); vh_note(" literal comparison %d;", lc); int nlen = vh_note_len; uint64_t h = 7; long g0 = vh_nfail;
    int c[3], n; c[0] = c0; for (n = 1; n <= maxn && vh_nfail == g0; n++) { long tot = 1; for (i = 1; i < n; i++) tot *= nl; long q; int step = n == 3 ? 1 : 1; for (q = n == 3 ? c0 % step : 0; q < tot && vh_nfail == g0; q += step) { long z = q; for (i = 1; i < n; i++) { c[i] = z % nl; z /= nl; }
        Eqn_p list = NULL; for (i = n - 1; i >= 0; i--) { Eqn_p e = E[i][c[i]]; Lit *p = &L[c[i]]; e->lterm = eterm(p->l); e->rterm = p->r < 0 ? bank->true_term : eterm(p->r); EqnDelProp(e, EPIsOriented | EPMaxIsUpToDate | EPIsMaximal | EPIsStrictlyMaximal | EPIsSelected); e->next = list; list = e; }
        static ClauseCell cc; static Clause_p cl; if (!cl) cl = EmptyClauseAlloc(); (void)cc; cl->literals = list; ClauseDelProp(cl, CPIsOriented); ClauseMarkMaximalTerms(o, cl); vh_trans++;
        Eqn_p e = cl->literals; int bad = 0; for (i = 0; i < n; i++, e = e->next) { if (e != E[i][c[i]]) { vh_fail("literals", "marking changes the list of literals"); bad = 1; break; } Lit *p = &L[c[i]]; Term_p tl = eterm(p->l), tr = p->r < 0 ? bank->true_term : eterm(p->r); CompareResult r = tl == tr ? to_equal : p->r < 0 ? to_greater : tc(ix(p->l), ix(p->r)); int wantswap = r == to_lesser; 
          if (e->lterm != (wantswap ? tr : tl) || e->rterm != (wantswap ? tl : tr) || !!EqnIsOriented(e) != (r == to_greater || r == to_lesser)) { showcl(c, n); vh_fail("orient", "literal %d is %soriented%s, but its sides compare as %s", i, EqnIsOriented(e) ? "" : "not ", e->lterm != tl ? " with sides swapped" : "", nm(r)); bad = 1; break; } }
        for (i = 0; i < n && !bad; i++) { int mx = 1, st = 1; for (j = 0; j < n; j++) if (j != i) { CompareResult r = litcmp(c[j], c[i], NULL); if (r == to_greater) mx = st = 0; if (r == to_equal) st = 0; } Eqn_p ei = E[i][c[i]]; h = h * 31 + mx * 2 + st;
          if (!!EqnIsMaximal(ei) != mx) { showcl(c, n); vh_fail("maximal", "literal %d is %smarked maximal", i, mx ? "not " : ""); bad = 1; } else if (!!EqnQueryProp(ei, EPIsStrictlyMaximal) != st) { showcl(c, n); vh_fail("strict", "literal %d is %smarked strictly maximal", i, st ? "not " : ""); bad = 1; } }
        if (!bad && n > 1 && n <= 2 + vh_thorough) for (k = 0; k < nimg && !bad; k++) { int s[16]; memset(s, -1, sizeof s); s[0] = img[k]; eterm(rvar(0))->binding = eterm(img[k]); for (i = 0; i < n && !bad; i++) if (EqnIsMaximal(E[i][c[i]])) { int mx = 1, st = 1; for (j = 0; j < n; j++) if (j != i) { CompareResult r = litcmp(c[j], c[i], s); if (r == to_greater) mx = st = 0; if (r == to_equal) st = 0; } Eqn_p ei = E[i][c[i]]; vh_trans += 2; 
              if (EqnListEqnIsMaximal(o, cl->literals, ei) != mx) { showcl(c, n); vh_fail("maximal-instance", "with X0=%s literal %d is %s", rshow(img[k]), i, mx ? "maximal, reported not maximal" : "not maximal, reported maximal"); bad = 1; } else if (EqnListEqnIsStrictlyMaximal(o, cl->literals, ei) != st) { showcl(c, n); vh_fail("strict-instance", "with X0=%s literal %d is %s", rshow(img[k]), i, st ? "strictly maximal, reported not" : "not strictly maximal, reported strictly maximal"); bad = 1; } } eterm(rvar(0))->binding = NULL; }
        cl->literals = NULL; } }
    vh_note_len = nlen; vh_outcome(h); vh_sample(); }
  return vh_done(); }
