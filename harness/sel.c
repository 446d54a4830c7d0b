/* sel.c - C15: clause selection after every sequence of insertions, removals, selections and re-evaluations */
#include "ecore.h"
#include "ecl.h"
#include <che_hcb.h>
#include <ccl_clausefunc.h>
#include <cco_proofproc.h>
#include <cco_forward_contraction.h>
#define NV 8
static const struct { long p[3]; double w[3]; int orphan, empty; } VA[NV] = {{{40, 40, 40}, {3, 1, 2}, 0, 0}, {{40, 40, 40}, {1, 3, 2}, 0, 0}, {{30, 40, 50}, {3, 2, 1}, 1, 0}, {{50, 40, 40}, {-1, 2, 0.5}, 0, 0}, {{40, 30, 40}, {2, 2, 1e9}, 1, 0}, {{40, 40, 30}, {3, 1.5, 1.5}, 0, 0}, {{40, 40, 40}, {7, 7, 7}, 0, 1}, {{30, 40, 40}, {3, -2, 3}, 0, 0}};
static const int ST[][4] = {{1, 0}, {1, 1, 0}, {2, 1, 0}, {1, 3, 0}, {1, 2, 3, 0}, {3, 1, 1, 0}};
typedef struct { Clause_p c; int v; long cnt; int st; } It; /* st 0 out, 1 in set, 2 gone */
static It I[64]; static int ni; static int *perm; static int cfgq;
static int vof(Clause_p c) { int i; for (i = 0; i < ni; i++) if (I[i].c == c && I[i].st != 2) return I[i].v; return 0; }
static double w0(void *d, Clause_p c) { return VA[vof(c)].w[*(int *)d]; }
static EvalPriority p0(Clause_p c) { return VA[vof(c)].p[0]; } static EvalPriority p1(Clause_p c) { return VA[vof(c)].p[1]; } static EvalPriority p2(Clause_p c) { return VA[vof(c)].p[2]; }
static void noexit(void *d) {}
static long prio(int i, int q) { return VA[I[i].v].empty ? PrioBest : VA[I[i].v].p[q]; }
static Clause_p par; static int dead;
static int best(int q) { int i, b = -1; for (i = 0; i < ni; i++) if (I[i].st == 1) { if (b < 0) { b = i; continue; } long a = prio(i, q) - prio(b, q); if (a < 0 || (!a && (VA[I[i].v].w[q] < VA[I[b].v].w[q] || (VA[I[i].v].w[q] == VA[I[b].v].w[q] && I[i].cnt < I[b].cnt)))) b = i; } return b; }
static HCB_p hcb; static ClauseSet_p set; static int nq, rc, rq; static long cnt;
static int idx(Clause_p c) { int i; for (i = 0; i < ni; i++) if (I[i].c == c && I[i].st != 2) return i; return -1; }
static void check(void) { int q, n = 0, i; for (i = 0; i < ni; i++) n += I[i].st == 1; if (set->members != n) vh_fail("members", "%ld members instead of %d", (long)set->members, n); for (q = 0; q < nq; q++) { Clause_p c = ClauseSetFindBest(set, q); int b = best(q); if ((c == NULL) != (b < 0) || (c && c != I[b].c)) { vh_fail("best", "queue %d offers clause %d instead of %d", q, c ? idx(c) : -1, b); return; } PStack_p s = EvalTreeTraverseInit(PDArrayElementP(set->eval_indices, q), q); Eval_p e; int seen = 0; while ((e = EvalTreeTraverseNext(s, q))) { seen++; int k = idx(e->object); if (k < 0 || I[k].st != 1) { vh_fail("stale", "queue %d contains a clause that is not in the set", q); break; } if (seen > n) break; } EvalTreeTraverseExit(s); if (seen != n) vh_fail("lost", "queue %d contains %d clauses instead of %d", q, seen, n); } }
static int select1(void) { /* reference */ int q = rq, b; int dl[64], nd = 0; while ((b = best(q)) >= 0 && dead && VA[I[b].v].orphan) { I[b].st = 2; dl[nd++] = b; } (void)dl; if (nq > 1) { rc++; if (rc == ST[cfgq][rq]) { rc = 0; rq = (rq + 1) % nq; } }
  Clause_p c = hcb->hcb_select(hcb, set); vh_trans++; if ((c == NULL) != (b < 0) || (c && c != I[b].c)) { vh_fail("select", "selected clause %d from the queues instead of %d of queue %d", c ? idx(c) : -1, b, q); return -1; } return b; }
static void insert(int v) { RLit l = {1, 0, -1}; l.l = rmk(1, 1, (int[]){rmk(0, 0, NULL)}); Clause_p c = VA[v].empty ? ClauseAlloc(NULL) : eclause(&l, 1); if (VA[v].orphan) ClausePushDerivation(c, DCParamod, par, par); I[ni].c = c; I[ni].v = v; I[ni].st = 0; ni++; HCBClauseEvaluate(hcb, c); I[ni - 1].cnt = cnt++; ClauseSetInsert(set, c); I[ni - 1].st = 1; }
static void extract(int i) { ClauseSetExtractEntry(I[i].c); I[i].st = 0; }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("sel"); rsymadd("a", 0, 0); rsymadd("p", 1, 1); ecore_bank(); int K = atoi(vh_arg("--k")), V = atoi(vh_arg("--v")), i, q; cfgq = atoi(vh_arg("--cfg")); const char *pre = vh_arg("--perm"); int np = pre ? atoi(pre) : 0; static int dq[3] = {0, 1, 2}; WFCB_p wf[3]; ClausePrioFun pf[3] = {p0, p1, p2}; for (i = 0; i < 3; i++) wf[i] = WFCBAlloc(w0, pf[i], noexit, &dq[i]); for (nq = 0; ST[cfgq][nq]; nq++); long ssel = 0;
  while (vh_next()) { int pv[16], k = 0, ops[16]; for (i = 0; i < np; i++) pv[i] = choose(V); if (np && !vh_mine()) continue; int nops = V + 9; if (np) nops = 9; while (k < K) { int op = choose(nops + 1); if (op == nops) break; ops[k++] = np ? op + V : op; if (!np && k == 2 && !vh_mine()) { k = -1; break; } } if (k < 0 || (!np && k < 2 && !vh_mine())) continue; vh_states++;
    ni = 0; cnt = 0; rc = rq = dead = 0; hcb = HCBAlloc(); for (i = 0; i < nq; i++) HCBAddWFCB(hcb, wf[i], ST[cfgq][i]); set = ClauseSetAlloc(); par = ClauseAlloc(NULL); long g0 = vh_nfail; uint64_t h = 5; for (i = 0; i < np; i++) { vh_note(" ins%d", pv[i]); insert(pv[i]); } int last = -1, j;
    for (j = 0; j < k && vh_nfail == g0; j++) { int op = ops[j]; vh_trans++; if (op < V) { vh_note(" ins%d", op); if (ni < 60) insert(op); } else switch (op - V) {
        case 0: vh_note(" select"); ssel++; i = select1(); if (i >= 0) { extract(i); I[i].st = 0; last = i; h = h * 31 + I[i].v + 1; } break;
        case 1: vh_note(" remove-oldest"); for (i = 0; i < ni && I[i].st != 1; i++); if (i < ni) { extract(i); last = i; } break;
        case 2: vh_note(" remove-newest"); for (i = ni - 1; i >= 0 && I[i].st != 1; i--); if (i >= 0) { extract(i); last = i; } break;
        case 3: vh_note(" reinsert"); if (last >= 0 && I[last].st == 0) { ClauseSetInsert(set, I[last].c); I[last].st = 1; } break;
        case 4: vh_note(" kill-parent"); dead = 1; ClauseSetProp(par, CPIsDead); break;
        case 5: vh_note(" delete-orphans"); ClauseSetDeleteOrphans(set); for (i = 0; i < ni; i++) if (I[i].st == 1 && dead && VA[I[i].v].orphan) I[i].st = 2; break;
        case 6: vh_note(" reevaluate"); { Clause_p c; ClauseSetReweight(hcb, set); for (c = set->anchor->succ; c != set->anchor; c = c->succ) I[idx(c)].cnt = cnt++; break; }
        case 8: vh_note(" keep2"); { int b = best(0), n0 = 0, n1 = 0; for (i = 0; i < ni; i++) n0 += I[i].st == 1; long del = HCBClauseSetDeleteBadClauses(hcb, set, 2); Clause_p c; unsigned char alive[64] = {0}; for (c = set->anchor->succ; c != set->anchor; c = c->succ) { n1++; if (idx(c) >= 0) alive[idx(c)] = 1; } if (del != n0 - n1 || n1 > 2 || (n0 && n1 < 1) || (b >= 0 && !alive[b])) vh_fail("keep", "keeping the best 2 of %d clauses: %ld deleted, %d left, best %s", n0, del, n1, b >= 0 && alive[b] ? "kept" : "lost"); for (i = 0; i < ni; i++) if (I[i].st == 1 && !alive[i]) I[i].st = 2; break; }
        case 7: vh_note(" remove-best-last"); i = best(nq - 1); if (i >= 0) { extract(i); last = i; } break; }
      if (vh_nfail == g0) check(); }
    /* drain */ int got; while (vh_nfail == g0 && (got = select1()) >= 0) { h = h * 31 + I[got].v + 1; extract(got); check(); } if (vh_nfail == g0 && set->members) vh_fail("lost", "%ld clauses are never handed out", (long)set->members);
    if (vh_nfail == g0) { for (i = 0; i < ni; i++) if (I[i].st == 0) ClauseFree(I[i].c); ClauseSetFree(set); } ClauseFree(par); HCBFree(hcb); vh_outcome(h); vh_sample(); (void)q; (void)perm; }
  vh_stat("selections", ssel); return vh_done(); }
