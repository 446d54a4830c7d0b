/* idx.c - C10: every index after every sequence of insertions and deletions against direct comparison */
#include "ecore.h"
#include "ecl.h"
#include "eord.h"
#include <ccl_subsumption.h>
#include <ccl_unit_simplify.h>
#include <ccl_rewrite.h>
#include <ccl_pdtrees.h>
#include <ccl_fcvindexing.h>
#include <ccl_global_indices.h>
#include <cco_paramodulation.h>
typedef struct { int n; RLit l[3]; Clause_p e; int in; } Item;
static Item U[400]; static int nu; static OCB_p o; static int Q[4000], nq; static int A, B, F, G, P1, P2;
static char *ishow(const Item *c) { static char b[8][2000]; static int w; char *s = b[w = (w + 1) & 7]; int i, l = 0; s[0] = 0; for (i = 0; i < c->n; i++) l += sprintf(s + l, "%s%s", i ? " | " : "", rlshow(&c->l[i])); if (!c->n) strcpy(s, "$false"); return s; }
static int T(const char *s) { static const char *p; if (s) p = s; while (*p == ' ') p++; char c = *p++; if (c == 'x') return rvar(0); if (c == 'y') return rvar(1); if (c == 'z') return rvar(2); int f = c == 'a' ? A : c == 'b' ? B : c == 'f' ? F : c == 'g' ? G : c == 'p' ? P1 : c == 'q' ? P2 : -1; if (f < 0) { fprintf(stderr, "bad term %s\n", p - 1); abort(); } int a[4], i; for (i = 0; i < rsym[f].ar; i++) a[i] = T(NULL); return rmk(f, rsym[f].ar, a); }
/* literals in prefix form separated by |, "~" negative, "=" before two terms an equation */
static void item(const char *s) { char b[200], *t, *sv; strcpy(b, s); Item *c = &U[nu++]; memset(c, 0, sizeof *c); for (t = strtok_r(b, "|", &sv); t; t = strtok_r(NULL, "|", &sv)) { RLit *l = &c->l[c->n++]; while (*t == ' ') t++; l->pos = 1; if (*t == '~') { l->pos = 0; t++; } if (*t == '=') { l->l = T(t + 1); l->r = T(NULL); } else { l->l = T(t); l->r = -1; } } }
static Clause_p mk(const Item *c, int rot) { RLit m[3]; int i; for (i = 0; i < c->n; i++) { m[i] = c->l[(i + rot) % c->n]; if (rot && m[i].r >= 0) { int t = m[i].l; m[i].l = m[i].r; m[i].r = t; } } Clause_p e = eclause(m, c->n); ClauseOrientLiterals(o, e); e->weight = ClauseStandardWeight(e); return e; }
static void unbound(const char *w) { int v; for (v = 0; v < 3; v++) if (eterm(rvar(v))->binding) { vh_fail("bindings", "%s leaves a variable bound", w); eterm(rvar(v))->binding = NULL; } }
static void resetterms(void) { int i; for (i = 0; i < rtn; i++) if (rterm[i]) { Term_p t = rterm[i]; if (TermIsRewritten(t)) TermDeleteRWLink(t); TermCellDelProp(t, TPIsRewritable | TPIsRRewritable | TPIsRewritten | TPIsRRewritten); t->rw_data.nf_date[0] = t->rw_data.nf_date[1] = SysDateCreationTime(); } }
/* choice of m items and of a sequence of at most k insert/delete operations on them; returns number of operations or -1 (not ours) */
static int m, kmax, it[4], seq[12], nseq;
static int scenario(void) { int i; for (i = 0; i < m; i++) { int lo = i ? it[i - 1] + 1 : 0; if (nu - lo < m - i) return -1; it[i] = lo + choose(nu - lo - (m - 1 - i)); if (i < 2 && i < m - 1) continue; } if (!vh_mine()) return -1; nseq = 0; for (i = 0; i < m; i++) U[it[i]].in = 0; while (nseq < kmax) { int c = choose(m + 1); if (c == m) break; seq[nseq++] = c; } vh_note("items:"); for (i = 0; i < m; i++) vh_note(" %d: %s;", i, ishow(&U[it[i]])); vh_note(" operations:"); return nseq; }
static void nop(int i) { vh_note(" %s%d", U[it[i]].in ? "-" : "+", i); }
static int rtop(RLit *u, int a, int b) { int s[RB]; memset(s, -1, sizeof s); if (rmatch(u->l, a, s) && (u->r < 0 ? b < 0 : b >= 0 && rmatch(u->r, b, s))) return 1; if (u->r < 0 || b < 0) return 0; memset(s, -1, sizeof s); return rmatch(u->l, b, s) && rmatch(u->r, a, s); }
static int oriented(Item *u) { return EqnIsOriented(u->e->literals); }
/* can u match a (first) and b (second)? a must be matched by an indexed side */
static int rside(Item *u, int side, int a) { int s[RB]; memset(s, -1, sizeof s); Eqn_p e = u->e->literals; int t = rof(side ? e->rterm : e->lterm, 0); return rmatch(t, a, s); }
static int lq[200], nlq; static RLit LQ[500], xlq[100]; static int nxlq;
static int rof1(Term_p t) { if (TermIsFreeVar(t)) return t->binding ? rof(t->binding, 0) : rvarOf(t); int r = rof(t, 0), s[16], v; memset(s, -1, sizeof s); for (v = 0; v < 3; v++) if (eterm(rvar(v))->binding) s[v] = rof(eterm(rvar(v))->binding, 0); return rsub(r, s); }
static void mode_pdt(void) { int i, j, k; const char *ages = vh_arg("--ages");
  while (vh_next()) { int n = scenario(); if (n < 0) continue; vh_states++; ClauseSet_p set = ClauseSetAlloc(); set->demod_index = PDTreeAlloc(bank); long g0 = vh_nfail; uint64_t h = 7;
    for (i = 0; i < m; i++) { U[it[i]].e = mk(&U[it[i]], 0); U[it[i]].e->date = 0; }
    for (i = 0; i < n; i++) { Item *u = &U[it[seq[i]]]; nop(seq[i]); if (u->in) ClauseSetExtractEntry(u->e); else { u->e->date = SysDateCreationTime() + 10 * (i + 1); ClauseSetPDTIndexedInsert(set, u->e); } u->in ^= 1; }
    if (set->members != (n ? set->members : 0)) vh_fail("members", "member count"); int nin = 0; for (i = 0; i < m; i++) nin += U[it[i]].in; if (set->members != nin) vh_fail("members", "%ld members instead of %d", (long)set->members, nin); 
    int nd = ages ? n + 1 : 1;
    for (j = 0; j < nq && vh_nfail == g0; j++) for (k = 0; k < nd * 2 && vh_nfail == g0; k++) { Term_p q = eterm(Q[j]); SysDate d = SysDateCreationTime() + (k / 2) * 10 + (k / 2 ? 5 : 0); if (!(k / 2)) d = PDTREE_IGNORE_NF_DATE; Subst_p s = SubstAlloc(); int got[4][2] = {{0}}; ClausePos_p p; int bad = 0;
        if ((j + k) & 1) { PDTreeSearchInit(set->demod_index, q, d, k & 1); PDTreeFindNextDemodulator(set->demod_index, s); PDTreeSearchExit(set->demod_index); SubstBacktrack(s); }
        PDTreeSearchInit(set->demod_index, q, d, k & 1); while ((p = PDTreeFindNextDemodulator(set->demod_index, s))) { vh_trans++; for (i = 0; i < m && U[it[i]].e != p->clause; i++); if (i == m || !U[it[i]].in) { vh_fail("stale", "query %s returns a clause that is not stored", rshow(Q[j])); bad = 1; break; } int sd = p->side == RightSide; got[i][sd]++; Term_p side = sd ? p->clause->literals->rterm : p->clause->literals->lterm; int inst = rof1(side); if (p->literal != p->clause->literals) vh_fail("literal", "wrong literal returned"); if (inst != Q[j]) { vh_fail("binding", "query %s: the bindings returned make the stored term %s, not the query", rshow(Q[j]), rshow(inst)); break; } }
        PDTreeSearchExit(set->demod_index); if (!bad && !p && s->current) { vh_fail("subst", "query %s: bindings are left after an exhausted search", rshow(Q[j])); } SubstDelete(s); unbound("index search");
        for (i = 0; i < m && !bad; i++) { int sd; for (sd = 0; sd < 2; sd++) { int want = U[it[i]].in && (!sd || !oriented(&U[it[i]])) && rside(&U[it[i]], sd, Q[j]); int must = want && (k / 2 == 0 || U[it[i]].e->date > d); if (got[i][sd] && !want) vh_fail("wrong", "query %s returns item %d side %d, which does not match", rshow(Q[j]), i, sd); else if (!got[i][sd] && must) vh_fail("missed", "query %s does not find item %d side %d%s", rshow(Q[j]), i, sd, k / 2 ? " (age constraint)" : ""); h = h * 2 + !!got[i][sd]; } } }
    /* unit functions */
    for (j = 0; j < nlq && vh_nfail == g0; j++) { RLit *l = &LQ[j]; Term_p t1 = eterm(l->l), t2 = l->r < 0 ? bank->true_term : eterm(l->r); int wt = 0, ws[2] = {0, 0}, wf = 0; if (l->r >= 0 && l->l == l->r) continue;
        for (i = 0; i < m; i++) if (U[it[i]].in) { Item *u = &U[it[i]]; RLit *ul = &u->l[0]; int a = rof(u->e->literals->lterm, 0), c = ul->r < 0 ? -1 : rof(u->e->literals->rterm, 0), s[RB], y = 0; memset(s, -1, sizeof s); if ((c < 0) == (l->r < 0)) { if (rmatch(a, l->l, s) && (c < 0 || rmatch(c, l->r, s))) y = 1; if (!y && c >= 0 && !oriented(u)) { memset(s, -1, sizeof s); if (rmatch(c, l->l, s) && rmatch(a, l->r, s)) y = 1; } } if (y) { wt = 1; ws[ul->pos] = 1; } if (y || (ul->pos && c >= 0 && l->r >= 0 && oriented(u) == 0 && reqsub(ul, l->l, l->r))) wf = 1; }
        ClausePos_p p; int x; p = FindTopSimplifyingUnit(set, t1, t2); vh_trans++; if (!p != !wt) vh_fail("top-unit", "FindTopSimplifyingUnit for %s: %d instead of %d", rlshow(l), p != NULL, wt); for (x = 0; x < 2; x++) { p = FindSignedTopSimplifyingUnit(set, t1, t2, x); vh_trans++; if (!p != !ws[x]) vh_fail("signed-unit", "FindSignedTopSimplifyingUnit for %s, sign %d: %d instead of %d", rlshow(l), x, p != NULL, ws[x]); else if (p && EqnIsPositive(p->literal) != x) vh_fail("signed-unit", "wrong sign"); }
        unbound("unit search"); Item d; memset(&d, 0, sizeof d); d.n = 1; d.l[0] = *l; Clause_p e = mk(&d, 0); int wc = 0; for (i = 0; i < m; i++) if (U[it[i]].in && runitsubs(&U[it[i]].l[0], l, 1)) wc = 1; Clause_p r = UnitClauseSetSubsumesClause(set, e); vh_trans++; if (!r != !wc) vh_fail("unit-subsume", "UnitClauseSetSubsumesClause for %s: %d instead of %d", rlshow(l), r != NULL, wc); else if (r) { for (i = 0; i < m && U[it[i]].e != r; i++); if (i == m || !U[it[i]].in || !runitsubs(&U[it[i]].l[0], l, 1)) vh_fail("unit-subsume", "wrong subsuming unit returned for %s", rlshow(l)); } unbound("unit subsumption"); ClauseFree(e); h = h * 2 + wc; }
    for (i = 0; i < m; i++) { Item *u = &U[it[i]]; if (u->in) ClauseSetExtractEntry(u->e); u->in = 0; }
    if (set->demod_index->clause_count != 0 || set->members) vh_fail("count", "index still counts %ld entries when empty", set->demod_index->clause_count); Subst_p s = SubstAlloc(); for (j = 0; j < nq; j++) { PDTreeSearchInit(set->demod_index, eterm(Q[j]), PDTREE_IGNORE_NF_DATE, 0); if (PDTreeFindNextDemodulator(set->demod_index, s)) { vh_fail("stale", "the emptied index returns a clause for %s", rshow(Q[j])); break; } PDTreeSearchExit(set->demod_index); } SubstDelete(s);
    for (i = 0; i < m; i++) ClauseFree(U[it[i]].e); ClauseSetFree(set); vh_outcome(h); vh_sample(); } }
static int ref_subs(Item *c, Item *d) { return c->n == 1 ? runitsubs(&c->l[0], d->l, d->n) : rsubs(c->l, c->n, d->l, d->n, 1); }
static void mode_fv(int spec, int elim) { int i, j; 
  while (vh_next()) { int n = scenario(); if (n < 0) continue; vh_states++; ClauseSet_p set = ClauseSetAlloc(), all = ClauseSetAlloc(); long g0 = vh_nfail; uint64_t h = 7; long sy = sig->f_count; FVCollect_p cs;
    switch (spec) { case 0: cs = FVCollectAlloc(FVIACFeatures, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); break; case 1: cs = FVCollectAlloc(FVISSFeatures, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); break; case 2: cs = FVCollectAlloc(FVIAllFeatures, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); break; case 3: cs = BillFeaturesCollectAlloc(sig, sy * 2 + 2); break; case 4: cs = BillPlusFeaturesCollectAlloc(sig, sy * 2 + 4); break; case 5: cs = FVCollectAlloc(FVICollectFeatures, true, 0, sy * 2 + 2, 2, 0, sy, sy + 2, 0, sy, 0, 0, 0, 0, 0, 0); break; case 6: cs = FVCollectAlloc(FVICollectFeatures, true, 0, sy * 2 + 2, 2, 0, 2 * sy, 2, 2 + sy, 2 * sy, 0, 0, 0, 0, 0, 0); break; default: cs = FVCollectAlloc(FVICollectFeatures, true, 0, 15, 2, 0, 3, 5, 0, 3, 8, 0, 3, 11, 0, 3); }
    cs->max_symbols = spec < 7 ? sy : spec == 7 ? sy : 3;
    for (i = 0; i < m; i++) { U[it[i]].e = mk(&U[it[i]], 0); ClauseSubsumeOrderSortLits(U[it[i]].e); if (!vh_arg("--permfew") || i == 0) { Clause_p c = mk(&U[it[i]], 0); ClauseSetInsert(all, c); } } PermVector_p perm = PermVectorCompute(all, cs, elim); set->fvindex = FVIAnchorAlloc(cs, perm ? PermVectorCopy(perm) : NULL);
    for (i = 0; i < n; i++) { Item *u = &U[it[seq[i]]]; nop(seq[i]); if (u->in) ClauseSetExtractEntry(u->e); else ClauseSetIndexedInsertClause(set, u->e); u->in ^= 1; }
    for (j = 0; j < nu && vh_nfail == g0; j++) { Item *q = &U[j]; Clause_p e = mk(q, j & 1); ClauseSubsumeOrderSortLits(e); FVPackedClause_p pc = FVIndexPackClause(e, set->fvindex); int wf = 0, wb = 0, wv = 0; int i2; for (i = 0; i < m; i++) if (U[it[i]].in) { Item *u = &U[it[i]]; int f = ref_subs(u, q), b = ref_subs(q, u); wf |= f; wb |= b; wv |= rsubs(u->l, u->n, q->l, q->n, 1) && rsubs(q->l, q->n, u->l, u->n, 1); }
        int tq = 0; for (i = 0; i < q->n; i++) if (q->l[i].pos && q->l[i].l == q->l[i].r) tq = 1; if (tq) { FVUnpackClause(pc); ClauseFree(e); continue; }
        Clause_p r = ClauseSetSubsumesFVPackedClause(set, pc), r2 = ClauseSetSubsumesClause(set, e); vh_trans += 2; if (!r != !wf || !r2 != !wf) vh_fail(wf ? "fv-missed" : "fv-wrong", "forward subsumption of %s: %d/%d instead of %d", ishow(q), r != NULL, r2 != NULL, wf); else if (r) { for (i = 0; i < m && U[it[i]].e != r; i++); if (i == m || !U[it[i]].in || !ref_subs(&U[it[i]], q)) vh_fail("fv-wrong", "the clause returned does not subsume %s", ishow(q)); }
        int how; for (how = 0; how < 2; how++) { PStack_p st = PStackAlloc(); int got[4] = {0}; if (how) ClauseSetFindSubsumedClauses(set, e, st); else ClauseSetFindFVSubsumedClauses(set, pc, st); vh_trans++; for (i2 = 0; i2 < PStackGetSP(st); i2++) { Clause_p c = PStackElementP(st, i2); for (i = 0; i < m && U[it[i]].e != c; i++); if (i == m || !U[it[i]].in) vh_fail("fv-stale", "a clause that is not stored is returned as subsumed by %s", ishow(q)); else got[i]++; } for (i = 0; i < m; i++) { int want = U[it[i]].in && ref_subs(q, &U[it[i]]); if (got[i] != want) vh_fail(want ? "fv-missed" : "fv-wrong", "item %d returned %d times instead of %d as subsumed by %s", i, got[i], want, ishow(q)); h = h * 2 + got[i]; } PStackFree(st); }
        r = ClauseSetFindFirstFVSubsumedClause(set, pc); if (!r != !wb) vh_fail("fv-first", "first clause subsumed by %s: %d instead of %d", ishow(q), r != NULL, wb); r = ClauseSetFindFVVariantClause(set, pc); vh_trans += 2; if (!r != !wv) vh_fail("fv-variant", "variant of %s: %d instead of %d", ishow(q), r != NULL, wv); unbound("subsumption"); FVUnpackClause(pc); ClauseFree(e); }
    for (i = 0; i < m; i++) { Item *u = &U[it[i]]; if (u->in) ClauseSetExtractEntry(u->e); u->in = 0; } for (j = 0; j < nu; j++) { Clause_p e = mk(&U[j], 0); ClauseSubsumeOrderSortLits(e); if (ClauseSetSubsumesClause(set, e)) { vh_fail("fv-stale", "the emptied index subsumes %s", ishow(&U[j])); } ClauseFree(e); }
    for (i = 0; i < m; i++) ClauseFree(U[it[i]].e); ClauseSetFreeClauses(all); ClauseSetFree(all); ClauseSetFree(set); FVCollectFree(cs); if (perm) PermVectorFree(perm); vh_outcome(h); vh_sample(); } }
/* fingerprint index directly: terms as items */
static int runif(int a, int b, int *s);
static int rwalk(int t, const int *s) { while (RISVAR(t) && s[RVAR(t)] >= 0) t = s[RVAR(t)]; return t; }
static int rocc(int v, int t, const int *s) { t = rwalk(t, s); if (t == v) return 1; int i; for (i = 0; i < rt[t].n; i++) if (rocc(v, rt[t].a[i], s)) return 1; return 0; }
static int runif(int a, int b, int *s) { a = rwalk(a, s); b = rwalk(b, s); if (a == b) return 1; if (RISVAR(a)) { if (rocc(a, b, s)) return 0; s[RVAR(a)] = b; return 1; } if (RISVAR(b)) return runif(b, a, s); if (rt[a].f != rt[b].f) return 0; int i; for (i = 0; i < rt[a].n; i++) if (!runif(rt[a].a[i], rt[b].a[i], s)) return 0; return 1; }
static int shift(int t) { int s[16]; memset(s, -1, sizeof s); s[0] = rvar(4); s[1] = rvar(5); s[2] = rvar(6); return rsub(t, s); }
static void mode_fp(const char *name) { int i, j, k; FPIndexFunction ff = GetFPIndexFunction((char *)name); if (!ff) return; Clause_p dummy = mk(&U[0], 0);
  int nt = nq; while (vh_next()) { int t[3], ops[8], no = 0, in[3] = {0}; for (i = 0; i < m; i++) { int lo = i ? t[i - 1] + 1 : 0; t[i] = lo + choose(nt - lo - (m - 1 - i)); } if (!vh_mine()) continue; vh_states++; while (no < kmax) { int c = choose(m + 1); if (c == m) break; ops[no++] = c; } vh_note("%s terms:", name); for (i = 0; i < m; i++) vh_note(" %s", rshow(Q[t[i]])); vh_note(" operations:"); SubtermIndex_p ix = FPIndexAlloc(ff, sig, SubtermBWTreeFreeWrapper); long g0 = vh_nfail; uint64_t h = 5;
    for (i = 0; i < no; i++) { int c = ops[i]; vh_note(" %s%d", in[c] ? "-" : "+", c); bool r = in[c] ? SubtermIndexDeleteOcc(ix, dummy, eterm(Q[t[c]]), c & 1) : SubtermIndexInsertOcc(ix, dummy, eterm(Q[t[c]]), c & 1); if (!r) vh_fail("fp-op", "operation %d refused", i); in[c] ^= 1; }
    for (j = 0; j < nt && vh_nfail == g0; j++) for (k = 0; k < 2; k++) { PStack_p st = PStackAlloc(); int q = k ? Q[j] : shift(Q[j]); if (k) FPIndexFindMatchable(ix, eterm(q), st); else FPIndexFindUnifiable(ix, eterm(q), st); vh_trans++; int got[3] = {0}, x; for (x = 0; x < PStackGetSP(st); x++) { PObjTree_p tr = PStackElementP(st, x); PStack_p it2 = PTreeTraverseInit(tr); PObjTree_p c; while ((c = (PObjTree_p)PTreeTraverseNext(it2))) { SubtermOcc_p so = c->key; for (i = 0; i < m && eterm(Q[t[i]]) != so->term; i++); if (i == m || !in[i]) { vh_fail("fp-stale", "a term that is not stored is returned for %s", rshow(q)); break; } got[i]++; if (!(so->pl.occs.rw_rest ? i & 1 : !(i & 1))) vh_fail("fp-payload", "term stored in the wrong part"); } PTreeTraverseExit(it2); }
        for (i = 0; i < m; i++) { int s[16]; memset(s, -1, sizeof s); int want = in[i] && (k ? rmatch(q, Q[t[i]], s) : runif(q, Q[t[i]], s)); if (want && !got[i]) vh_fail(k ? "fp-match-missed" : "fp-unify-missed", "%s not returned for %s", rshow(Q[t[i]]), rshow(q)); if (got[i] > 1) vh_fail("fp-twice", "%s returned twice for %s", rshow(Q[t[i]]), rshow(q)); h = h * 2 + got[i]; } PStackFree(st); }
    for (i = 0; i < m; i++) if (in[i]) SubtermIndexDeleteOcc(ix, dummy, eterm(Q[t[i]]), i & 1); for (j = 0; j < nt; j++) if (FPIndexFind(ix, eterm(Q[j])) && FPIndexFind(ix, eterm(Q[j]))->payload) { vh_fail("fp-stale", "the emptied index has an entry for %s", rshow(Q[j])); break; } FPIndexFree(ix); vh_outcome(h); vh_sample(); } }
static int maxdep; static int sub_rw(int t, Item *d, int l, int r, int or_, int restricted, int dep) { if (RISVAR(t) || dep > maxdep) return 0; int s[RB], i; memset(s, -1, sizeof s); if (rmatch(l, t, s)) { int ren = 1, used[16] = {0}; for (i = 0; i < 16; i++) if (s[i] >= 0) { if (!RISVAR(s[i]) || used[RVAR(s[i])]++) ren = 0; } int ok; if (or_) ok = !restricted || !ren; else { int v; ok = !ren; for (v = 0; v < 3; v++) if (roccurs(rvar(v), r) && s[v] < 0) ok = 0; if (ok) ok = TOGreater(o, eterm(rsub(l, s)), eterm(rsub(r, s)), DEREF_NEVER, DEREF_NEVER); } if (ok) return 1; } for (i = 0; i < rt[t].n; i++) if (sub_rw(rt[t].a[i], d, l, r, or_, 0, dep + 1)) return 1; return 0; }
static int cl_rw(Item *c, Item *d) { Eqn_p de = d->e->literals, e; int l = rof(de->lterm, 0), r = de->rterm == bank->true_term ? -1 : rof(de->rterm, 0), od = EqnIsOriented(de); for (e = c->e->literals; e; e = e->next) { int restricted = EqnIsMaximal(e) && EqnIsPositive(e) && EqnIsOriented(e); int a = rof(e->lterm, 0), b = e->rterm == bank->true_term ? -1 : rof(e->rterm, 0); if (sub_rw(a, d, l, r, od, restricted, 0) || (b >= 0 && sub_rw(b, d, l, r, od, 0, 0))) return 1; if (!od && (sub_rw(a, d, r, l, 0, restricted, 0) || (b >= 0 && sub_rw(b, d, r, l, 0, 0, 0)))) return 1; } return 0; }
static int sameset(ClauseSet_p a, ClauseSet_p b, char *why) { int pass; for (pass = 0; pass < 2; pass++) { Clause_p c, d; ClauseSet_p s = pass ? b : a, t = pass ? a : b; for (c = s->anchor->succ; c != s->anchor; c = c->succ) { RLit x[12], y[12]; int nx = rclause(c, x, 12), ny; if (nx < 0) { strcpy(why, "unreadable"); return 0; } int f = 0; for (d = t->anchor->succ; d != t->anchor && !f; d = d->succ) { ny = rclause(d, y, 12); if (nx == ny) { int k, j, map[256]; (void)k; (void)j; (void)map; f = 0; RLit p[12], q[12]; int i; memcpy(p, x, sizeof p); memcpy(q, y, sizeof q); /* bring variables into 0..15 */ int pass2; for (pass2 = 0; pass2 < 2; pass2++) { RLit *w = pass2 ? q : p; int nv = 0, vs[64]; int stk[200], ns = 0; for (i = nx - 1; i >= 0; i--) { if (w[i].r >= 0) stk[ns++] = w[i].r; stk[ns++] = w[i].l; } while (ns) { int tt = stk[--ns]; if (RISVAR(tt)) { int z; for (z = 0; z < nv && vs[z] != tt; z++); if (z == nv) vs[nv++] = tt; } else for (i = rt[tt].n - 1; i >= 0; i--) stk[ns++] = rt[tt].a[i]; }
          int (*ren)(int, int *, int) = NULL; (void)ren; if (nv > 15) { strcpy(why, "too many variables"); return 0; } /* rename by two-step substitution on large variable numbers */ 
          extern int rren(int, int *, int); for (i = 0; i < nx; i++) { w[i].l = rren(w[i].l, vs, nv); if (w[i].r >= 0) w[i].r = rren(w[i].r, vs, nv); } } if (rsubs(p, nx, q, nx, 1) && rsubs(q, nx, p, nx, 1)) f = 1; } } if (!f) { int i, l = sprintf(why, "only %s index:", pass ? "with" : "without"); for (i = 0; i < nx; i++) l += sprintf(why + l, " %s", rlshow(&x[i])); return 0; } } } return 1; }
int rren(int t, int *vs, int nv) { if (RISVAR(t)) { int i; for (i = 0; i < nv; i++) if (vs[i] == t) return rvar(i); return t; } int a[RARGS], i; for (i = 0; i < rt[t].n; i++) a[i] = rren(rt[t].a[i], vs, nv); return rmk(rt[t].f, rt[t].n, a); }
static void mode_gi(const char *name, int pm) { int i, j; const char *d1 = vh_arg("--pmtypes"); int npm = pm ? (d1 ? atoi(d1) : 3) : 1; VarBank_p fresh = VarBankAlloc(sig->type_bank); long gen = 0; long oprec = vh_arg("--ord") ? atol(vh_arg("--ord")) : 0; (void)oprec;
  while (vh_next()) { int n = scenario(); if (n < 0) continue; vh_states++; resetterms(); GlobalIndices gi; GlobalIndicesNull(&gi); GlobalIndicesInit(&gi, sig, pm ? "NoIndex" : (char *)name, pm ? (char *)name : "NoIndex", pm ? (char *)name : "NoIndex", 0); ClauseSet_p set = ClauseSetAlloc(); long g0 = vh_nfail; uint64_t h = 7;
    for (i = 0; i < m; i++) { U[it[i]].e = mk(&U[it[i]], 0); ClauseMarkMaximalTerms(o, U[it[i]].e); }
    for (i = 0; i < n; i++) { Item *u = &U[it[seq[i]]]; nop(seq[i]); if (u->in) { GlobalIndicesDeleteClause(&gi, u->e, false); ClauseSetExtractEntry(u->e); } else { ClauseSetInsert(set, u->e); GlobalIndicesInsertClause(&gi, u->e, false); } u->in ^= 1; }
    for (j = 0; j < nu && vh_nfail == g0; j++) { Item *q = &U[j]; Item tmp = *q; tmp.e = mk(q, j & 1); 
      if (!pm) { if (q->n != 1 || !q->l[0].pos || (q->l[0].r < 0)) { ClauseFree(tmp.e); continue; } resetterms(); PStack_p st = PStackAlloc(); FindRewritableClausesIndexed(o, gi.bw_rw_index, st, tmp.e, 100); vh_trans++; int got[4] = {0}, x; for (x = 0; x < PStackGetSP(st); x++) { Clause_p c = PStackElementP(st, x); for (i = 0; i < m && U[it[i]].e != c; i++); if (i == m || !U[it[i]].in) vh_fail("rw-stale", "a clause that is not stored is returned for %s", ishow(q)); else got[i] = 1; } PStackReset(st); for (i = 0; i < m; i++) ClauseDelProp(U[it[i]].e, CPRWDetected); resetterms(); int g2[4] = {0}; FindRewritableClauses(o, set, st, tmp.e, 100); vh_trans++; for (x = 0; x < PStackGetSP(st); x++) for (i = 0; i < m; i++) if (U[it[i]].e == PStackElementP(st, x)) g2[i] = 1; PStackFree(st); resetterms();
        for (i = 0; i < m; i++) { maxdep = 99; int want = U[it[i]].in && cl_rw(&U[it[i]], &tmp); maxdep = 1; int shallow = want && cl_rw(&U[it[i]], &tmp); static long deep; if (want && !got[i] && !shallow) { if (!deep++) vh_fail("rw-missed-deep", "item %d is rewritable by %s only below the arguments of a literal's side, and the index misses it", i, ishow(q)); } else if (got[i] != want) vh_fail(want ? "rw-missed" : "rw-wrong", "item %d is %s%s by %s but the index says otherwise", i, want ? "" : "not ", "rewritable", ishow(q)); if (g2[i] != want) vh_fail("rw-noindex", "item %d is %srewritable by %s, but the search without index says otherwise", i, want ? "" : "not ", ishow(q)); h = h * 2 + got[i]; } unbound("rewriting search"); }
      else { ClauseMarkMaximalTerms(o, tmp.e); Clause_p cp = ClauseCopyDisjoint(tmp.e); int t; for (t = 0; t < npm; t++) { ParamodulationType ty = t == 0 ? ParamodPlain : t == 1 ? ParamodSim : t == 2 ? ParamodSuperSim : t == 3 ? ParamodOrientedSim : ParamodDecreasingSim; ClauseSet_p s1 = ClauseSetAlloc(), s2 = ClauseSetAlloc(); VarBankSetVCountsToUsed(bank->vars); ComputeAllParamodulants(bank, o, cp, tmp.e, set, s1, fresh, ty); VarBankSetVCountsToUsed(bank->vars); ComputeAllParamodulantsIndexed(bank, o, fresh, cp, tmp.e, gi.pm_into_index, gi.pm_negp_index, gi.pm_from_index, s2, ty); vh_trans += 2; gen += s1->members; char why[4000]; if (!sameset(s1, s2, why)) vh_fail("pm-differ", "paramodulants (type %d) of %s with and without index differ: %s", t, ishow(q), why); h = h * 31 + s1->members; ClauseSetFreeClauses(s1); ClauseSetFreeClauses(s2); ClauseSetFree(s1); ClauseSetFree(s2); } unbound("paramodulation"); ClauseFree(cp); }
      ClauseFree(tmp.e); }
    for (i = 0; i < m; i++) { Item *u = &U[it[i]]; if (u->in) { GlobalIndicesDeleteClause(&gi, u->e, false); ClauseSetExtractEntry(u->e); } u->in = 0; ClauseFree(u->e); }
    SubtermIndex_p xs[4] = {gi.bw_rw_index, gi.pm_from_index, gi.pm_into_index, gi.pm_negp_index}; for (i = 0; i < 4; i++) if (xs[i]) { PStack_p st = PStackAlloc(); FPIndexCollectLeaves(xs[i], st); for (j = 0; j < PStackGetSP(st); j++) { FPTree_p lf = PStackElementP(st, j); if (lf->payload) { vh_fail("gi-stale", "the emptied index %d still has entries", i); break; } } PStackFree(st); }
    GlobalIndicesFreeIndices(&gi); ClauseSetFree(set); vh_outcome(h); vh_sample(); } if (pm) vh_stat("paramodulants", gen); }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("idx"); const char *mode = vh_arg("--mode"); m = atoi(vh_arg("--m")); kmax = atoi(vh_arg("--k")); int i; const char **p; A = rsymadd("a", 0, 0); B = rsymadd("b", 0, 0); F = rsymadd("f", 1, 0); G = rsymadd("g", 2, 0); P1 = rsymadd("p", 1, 1); P2 = rsymadd("q", 2, 1); fs[0] = A; fs[1] = B; fs[2] = F; fs[3] = G; fs[4] = P1; fs[5] = P2; nf = 6; ecore_bank(); int prec[8] = {0, 1, 2, 3, 4, 5}, wt[8] = {1, 1, 1, 1, 1, 1}; o = mkocb(KBO6, prec, wt, 1, 0);
  static const char *units[] = {"=fxx", "=fxa", "=fxb", "=xy", "=xa", "=gxyx", "=gxyy", "=gxygyx", "=gxxx", "=gxfya", "=gfxyb", "=fab", "~=fxa", "~=xa", "~=gxygyx", "px", "pfx", "~pa", "pgxy", "pgxx", "~pgfxy", "qxy", "~qxx", "qfxx", "=ffxx", "=gxafx", "=fxfy", NULL};
  static const char *cls[] = {"px|qxy", "px|~qxy", "pfx|qxx", "px|py", "pa", "~pa|qab", "=fxa|px", "=fxx|~px", "~=xa|px", "=xa|=ya", "=xa|=xb", "qxy|qyx", "qxy|qyz|~qxz", "=gxya|pfx", "=gxygyx", "pgxy|~qxa", "~=fxfy|=xy", "px", "~qxy", "pfa|qaa|~pb", "=fab|pfa|qab", "pfx|pa|qxx", "~=gfaxa|pa|pb", "=fxa", NULL};
  static const char *rwc[] = {"=fxa", "=fxx", "=gxyx", "=gxygyx", "=gxaa", "=ffxx", "=fab", "=xa", "=fxfy", "pfx", "pffx", "~pgfax", "pgxy|qfxy", "=gxfya|px", "=ffxfa|pgxy", "~=fxa|qxx", "qggabbfx", "pfgxffa", "=gfxya", "~=gfxygyx|pa", "=xffgaa", "=fffxfb|pb", NULL};
  static const char *pmc[] = {"=fxa", "=gxyx|px", "~pfx", "pfx|qxx", "~qxy|pgxy", "=gxygyx", "~=fxa|px", "=fxgxx|=xa", "px", "~pa|=ab", "qxfy", "~qfxy|~pa", "=xa|=ya", "=ffxx", "~=gxfya", "pa|pb", "~pgxfa|qxa", "=fxb|~qxx", "qxx|qax", "~=xy|pfx|~pfy", "=gfxxb", NULL};
  if (!strcmp(mode, "pdt")) { for (p = units; *p; p++) item(*p); if (vh_arg("--first")) nu = atoi(vh_arg("--first")); int w = vh_arg("--qw") ? atoi(vh_arg("--qw")) : 3; nq = gen_terms(w, 2, Q, 3900); int base = nq; for (i = 0; i < base && i < 60; i++) Q[nq++] = rmk(P1, 1, &Q[i]); int j; for (i = 0; i < 6; i++) for (j = 0; j < 6; j++) { int a[2] = {Q[i], Q[j]}; Q[nq++] = rmk(P2, 2, a); }
    int npq = nq; { /* larger instances of the stored terms */ int S[3][3] = {{T("gab"), T("fa"), T("x")}, {T("fa"), T("gab"), T("y")}, {T("gxfy"), T("gxfy"), T("a")}}, u, t, sd, n; int lim = nq; for (u = 0; u < nu; u++) for (t = 0; t < 3; t++) { int in[2]; for (sd = 0; sd < 2; sd++) { int z = sd ? U[u].l[0].r : U[u].l[0].l; in[sd] = -1; if (z < 0) continue; int sb[16]; memset(sb, -1, sizeof sb); sb[0] = S[t][0]; sb[1] = S[t][1]; sb[2] = S[t][2]; in[sd] = rsub(z, sb); for (n = 0; n < nq && Q[n] != in[sd]; n++); if (n == nq) Q[nq++] = in[sd]; } xlq[nxlq].pos = t & 1; xlq[nxlq].l = in[0]; xlq[nxlq++].r = in[1]; } (void)lim; }
    for (i = 0; i < 12; i++) for (j = 0; j < 12; j++) { LQ[nlq].pos = (i + j) & 1; LQ[nlq].l = Q[i]; LQ[nlq++].r = Q[j]; } for (i = base; i < npq && nlq < 390; i += 2) { LQ[nlq].pos = i / 2 & 1; LQ[nlq].l = Q[i]; LQ[nlq++].r = -1; } const char *xt[] = {"gfaxfx", "gxgxx", "gfafx", "gabgba", "gfxygyfx", NULL}; (void)xt; for (i = 0; i < nxlq; i++) LQ[nlq++] = xlq[i]; mode_pdt(); }
  else if (!strcmp(mode, "fv")) { for (p = cls; *p; p++) item(*p); mode_fv(atoi(vh_arg("--spec")), vh_arg("--elim") != NULL); }
  else if (!strcmp(mode, "fp")) { item("pa"); nq = gen_terms(atoi(vh_arg("--qw")), 2, Q, 3900); mode_fp(vh_arg("--index")); }
  else if (!strcmp(mode, "rw")) { for (p = rwc; *p; p++) item(*p); mode_gi(vh_arg("--index"), 0); }
  else { for (p = pmc; *p; p++) item(*p); mode_gi(vh_arg("--index"), 1); }
  return vh_done(); }
