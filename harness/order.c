/* order.c - C07: every precedence and weight assignment over a small signature, every pair/triple of small terms */
#include "ecore.h"
#include <cto_kbo.h>
#include <cto_kbolin.h>
#include <cto_lpo.h>
static int S[20000], ns, B[400], nb; static int *idx; static unsigned char *M; /* result matrix over S */
#include "eord.h"
static CompareResult cmp(OCB_p o, int s, int t) { return TOCompare(o, eterm(s), eterm(t), DEREF_NEVER, DEREF_NEVER); }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("order"); const char *cfg = vh_arg("--sig"); int w = atoi(vh_arg("--w")), bw = atoi(vh_arg("--bw")), nv = 2, i, j, k;
  for (i = 0; cfg[i]; i++) { static const char *names[] = {"a", "b", "c", "f", "g", "h", "k", "m"}; fs[nf++] = rsymadd(names[i], cfg[i] - '0', 0); }
  ecore_bank(); ns = gen_terms(w, nv, S, 20000); nb = gen_terms(bw, nv, B, 400); for (i = 0; i < ns; i++) eterm(S[i]); M = malloc((size_t)ns * ns); int maxid = rtn; idx = malloc(sizeof(int) * RMAX); memset(idx, -1, sizeof(int) * RMAX); for (i = 0; i < ns; i++) idx[S[i]] = i; (void)maxid;
  int R[64], nr = gen_terms(2, nv, R, 64); nr += gen_terms(3, nv, R + nr, 8) > 0 ? 0 : 0; /* substitution range: terms with at most 2 nodes, and g(x,y) */
  { for (i = 0; i < nf; i++) if (rsym[fs[i]].ar == 2) { int t[2] = {rvar(0), rvar(1)}; R[nr++] = rmk(fs[i], 2, t); t[0] = rmk(0, 0, NULL); t[1] = rvar(0); R[nr++] = rmk(fs[i], 2, t); } }
  static const TermOrdering TY[] = {KBO, KBO6, LPO, LPOCopy, LPO4, LPO4Copy}; static const char *TN[] = {"KBO", "KBO6", "LPO", "LPOCopy", "LPO4", "LPO4Copy"}; uint64_t *bits = malloc((size_t)ns * ((ns + 63) / 64) * 8); int W64 = (ns + 63) / 64; 
  while (vh_next()) { int fam = choose(2), prec[8], used = 0, wt[8], vw = 1, mat; for (i = 0; i < nf; i++) { int c = choose(nf - i); for (k = 0;; k++) if (!(used >> k & 1)) { if (c-- == 0) break; } used |= 1 << k; prec[i] = k; } /* prec[i] = rank of symbol i */
    if (fam == 0) { vw = 1 + choose(2); int zero = 0; for (i = 0; i < nf; i++) { int ar = rsym[fs[i]].ar; if (ar == 0) wt[i] = vw + choose(2); else if (ar == 1) { int c = choose(prec[i] == nf - 1 ? 3 : 2); wt[i] = c == 2 ? 0 : c + 1; } else wt[i] = choose(2) * 2; } (void)zero; } else for (i = 0; i < nf; i++) wt[i] = 1;
    mat = choose(2); if (!vh_mine()) continue; vh_states++;
    vh_note("%s prec", fam ? "LPO" : "KBO"); for (i = 0; i < nf; i++) vh_note(" %s/%d:%d w%d", rsym[fs[i]].name, rsym[fs[i]].ar, prec[i], wt[i]); vh_note(" var w%d %s;", vw, mat ? "matrix" : "ranks"); int nl = vh_note_len; long g0 = vh_nfail;
    int t0 = fam ? 2 : 0, t1 = fam ? 6 : 2, t; for (t = t0; t < t1 && vh_nfail == g0; t++) { OCB_p o = mkocb(TY[t], prec, wt, vw, mat);
      /* matrix, inverse, agreement of the implementations, greater test */
      for (i = 0; i < ns && vh_nfail == g0; i++) for (j = 0; j < ns; j++) { CompareResult r = cmp(o, S[i], S[j]); vh_trans++; if (r != to_greater && r != to_lesser && r != to_equal && r != to_uncomparable) { vh_fail("result", "%s gives no proper result on %s, %s", TN[t], rshow(S[i]), rshow(S[j])); break; }
          if (t == t0) M[(size_t)i * ns + j] = r; else if (M[(size_t)i * ns + j] != r) { vh_fail("disagree", "%s: %s %s %s, but %s says %s", TN[t], rshow(S[i]), nm(r), rshow(S[j]), TN[t0], nm(M[(size_t)i * ns + j])); break; }
          if (TOGreater(o, eterm(S[i]), eterm(S[j]), DEREF_NEVER, DEREF_NEVER) != (r == to_greater)) { vh_fail("greater", "%s: greater test on %s, %s differs from comparison (%s)", TN[t], rshow(S[i]), rshow(S[j]), nm(r)); break; } }
      if (t == t0 && vh_nfail == g0) { /* axioms on the matrix */
        memset(bits, 0, (size_t)ns * W64 * 8);
        for (i = 0; i < ns && vh_nfail == g0; i++) for (j = 0; j < ns; j++) { int r = M[(size_t)i * ns + j]; if (r == to_greater) bits[(size_t)i * W64 + j / 64] |= 1ULL << (j & 63);
            if ((r == to_equal) != (i == j)) { vh_fail("equal", "%s %s %s", rshow(S[i]), nm(r), rshow(S[j])); break; }
            if (M[(size_t)j * ns + i] != inv(r)) { vh_fail("inverse", "%s %s %s, but %s the other way round", rshow(S[i]), nm(r), rshow(S[j]), nm(M[(size_t)j * ns + i])); break; }
            if (r == to_uncomparable && rt[S[i]].ground && rt[S[j]].ground) { vh_fail("total", "ground terms %s and %s are incomparable", rshow(S[i]), rshow(S[j])); break; } }
        for (i = 0; i < ns && vh_nfail == g0; i++) { for (k = 0; k < rt[S[i]].n; k++) { int q = idx[rt[S[i]].a[k]]; if (q >= 0 && M[(size_t)i * ns + q] != to_greater) { vh_fail("subterm", "%s is not larger than its subterm %s", rshow(S[i]), rshow(S[q])); break; } } if (vh_nfail != g0) break;
          for (j = 0; j < ns; j++) if (M[(size_t)i * ns + j] == to_greater) { uint64_t *a = bits + (size_t)i * W64, *b = bits + (size_t)j * W64; for (k = 0; k < W64; k++) if (b[k] & ~a[k]) { int q = k * 64 + __builtin_ctzll(b[k] & ~a[k]); vh_fail("transitive", "%s > %s > %s, but %s", rshow(S[i]), rshow(S[j]), rshow(S[q]), nm(M[(size_t)i * ns + q])); break; } if (k < W64) break; } } }
      /* context and substitution on the base set (every implementation) */
      for (i = 0; i < nb && vh_nfail == g0; i++) for (j = 0; j < nb && vh_nfail == g0; j++) { int bi = idx[B[i]], bj = idx[B[j]]; if (M[(size_t)bi * ns + bj] != to_greater) continue; int q, x, c[4];
          for (q = 0; q < nf && vh_nfail == g0; q++) { int ar = rsym[fs[q]].ar; for (x = 0; x < ar; x++) { int y; for (y = 0; y < (ar > 1 ? 3 : 1); y++) { int z; for (z = 0; z < ar; z++) c[z] = y == 0 ? rmk(0, 0, NULL) : y == 1 ? rvar(0) : B[i]; c[x] = B[i]; int l = rmk(fs[q], ar, c); c[x] = B[j]; int r = rmk(fs[q], ar, c); vh_trans++; if (cmp(o, l, r) != to_greater) { vh_fail("context", "%s: %s > %s, but %s %s %s", TN[t], rshow(B[i]), rshow(B[j]), rshow(l), nm(cmp(o, l, r)), rshow(r)); break; } } } }
          int s[16]; memset(s, -1, sizeof s); for (q = 0; q < nr && vh_nfail == g0; q++) for (x = 0; x < nr; x++) { s[0] = R[q]; s[1] = R[x]; int l = rsub(B[i], s), r = rsub(B[j], s); vh_trans++; if (cmp(o, l, r) != to_greater) { vh_fail("stable", "%s: %s > %s, but %s %s %s", TN[t], rshow(B[i]), rshow(B[j]), rshow(l), nm(cmp(o, l, r)), rshow(r)); break; } } }
      /* comparison through variable bindings equals comparison of the instances */
      for (i = 0; i < nb && vh_nfail == g0; i++) for (j = 0; j < nb && vh_nfail == g0; j++) { int q, s[16]; memset(s, -1, sizeof s); for (q = 0; q < nr; q++) { int im = R[q]; if (roccurs(rvar(0), im)) continue; s[0] = im; Term_p x = eterm(rvar(0)); Term_p ei = eterm(im), l = eterm(rsub(B[i], s)), r = eterm(rsub(B[j], s)); x->binding = ei; CompareResult d = TOCompare(o, eterm(B[i]), eterm(B[j]), DEREF_ALWAYS, DEREF_ALWAYS), d1 = TOCompare(o, eterm(B[i]), eterm(B[j]), DEREF_ONCE, DEREF_NEVER); x->binding = NULL; CompareResult e = TOCompare(o, l, r, DEREF_NEVER, DEREF_NEVER), e1 = TOCompare(o, l, eterm(B[j]), DEREF_NEVER, DEREF_NEVER); vh_trans += 2;
            if (d != e) { vh_fail("deref", "%s: %s and %s with X0=%s: %s, as instances: %s", TN[t], rshow(B[i]), rshow(B[j]), rshow(im), nm(d), nm(e)); break; }
            if (d1 != e1) { vh_fail("deref1", "%s: %s (X0=%s) and %s: %s, as instance: %s", TN[t], rshow(B[i]), rshow(im), rshow(B[j]), nm(d1), nm(e1)); break; } } }
      OCBFree(o); }
    vh_note_len = nl; vh_outcome(vh_h(1, M, (size_t)ns * ns)); vh_sample(); }
  return vh_done(); }
