/* unify.c - C09: unification and matching on every pair of small terms, from several binding states */
#include "ecore.h"
static int S[60000], ns; static int mu[16];
static int walk(int t) { while (RISVAR(t) && mu[RVAR(t)] >= 0) t = mu[RVAR(t)]; return t; }
static int occ(int v, int t) { t = walk(t); if (t == v) return 1; int i; for (i = 0; i < rt[t].n; i++) if (occ(v, rt[t].a[i])) return 1; return 0; }
static int uni(int s, int t) { s = walk(s); t = walk(t); if (s == t) return 1; if (RISVAR(t) && !RISVAR(s)) { int x = s; s = t; t = x; } if (RISVAR(s)) { if (rsort(s) != rsort(t) || occ(s, t)) return 0; mu[RVAR(s)] = t; return 1; } if (rt[s].f != rt[t].f) return 0; int i; for (i = 0; i < rt[s].n; i++) if (!uni(rt[s].a[i], rt[t].a[i])) return 0; return 1; }
static int res(int t) { t = walk(t); if (RISVAR(t)) return t; int i, a[RARGS]; for (i = 0; i < rt[t].n; i++) a[i] = res(rt[t].a[i]); return rmk(rt[t].f, rt[t].n, a); }
static int match(int p, int t) { if (RISVAR(p)) { if (rsort(p) != rsort(t)) return 0; if (mu[RVAR(p)] >= 0) return mu[RVAR(p)] == t; mu[RVAR(p)] = t; return 1; } if (rt[p].f != rt[t].f) return 0; int i; for (i = 0; i < rt[p].n; i++) if (!match(rt[p].a[i], rt[t].a[i])) return 0; return 1; }
static int fw[16], bw[16];
static int variant(int s, int t) { if (RISVAR(s)) { if (!RISVAR(t)) return 0; int a = RVAR(s), b = RVAR(t); if (a > 15 || b > 15) return 0; if (fw[a] < 0 && bw[b] < 0) { fw[a] = b; bw[b] = a; return 1; } return fw[a] == b && bw[b] == a; } if (rt[s].f != rt[t].f) return 0; int i; for (i = 0; i < rt[s].n; i++) if (!variant(rt[s].a[i], rt[t].a[i])) return 0; return 1; }
static int cyc(Term_p t, int d) { if (d > 200) return 1; while (TermIsFreeVar(t) && t->binding) { t = t->binding; if (++d > 200) return 1; } int i; if (!TermIsFreeVar(t)) for (i = 0; i < t->arity; i++) if (cyc(t->args[i], d + 1)) return 1; return 0; }
static int vars[8], nvars;
static Term_p bnd[8]; static void snap(void) { int i; for (i = 0; i < nvars; i++) bnd[i] = eterm(vars[i])->binding; } static int same(void) { int i; for (i = 0; i < nvars; i++) if (bnd[i] != eterm(vars[i])->binding) return 0; return 1; }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("unify"); int w = atoi(vh_arg("--w")), sorted = vh_arg("--sorted") != NULL, h3 = vh_arg("--h3") != NULL; 
  int a = rsymadd("a", 0, 0), f = rsymadd("f", 1, 0), g = rsymadd("g", 2, 0), h = -1; if (h3) h = rsymadd("h", 3, 0); (void)a; (void)h;
  if (sorted) { int c = rsymadd("c", 0, 0), k = rsymadd("k", 2, 0), e = rsymadd("e", 1, 0); rsym[c].rs = 1; rsym[k].as[1] = 1; rsym[e].as[0] = 1; rsym[e].rs = 1; gen_nv1 = 2; }
  ecore_bank(); int nv = sorted ? 2 : 3, i; ns = gen_terms(w, nv, S, 60000); for (i = 0; i < ns; i++) eterm(S[i]); for (i = 0; i < nv; i++) vars[nvars++] = rvar(i); if (sorted) { vars[nvars++] = rvar(8); vars[nvars++] = rvar(9); }
  int X = rvar(0), Y = rvar(1), Z = sorted ? Y : rvar(2), fy, gxz; { int t[2] = {Y}; fy = rmk(f, 1, t); t[0] = Z; t[1] = Z; gxz = rmk(g, 2, t); }
  int pre[5][2] = {{-1, -1}, {X, rmk(0, 0, NULL)}, {X, Y}, {X, fy}, {X, gxz}}; Subst_p sub = SubstAlloc(); long nu = 0, nm = 0;
  while (vh_next()) { int si = choose(ns); if (!vh_mine()) continue; int s = S[si], j, p; vh_states++;
    for (p = 0; p < 5; p++) for (j = 0; j < ns; j++) { int t = S[j]; vh_trans++; if (rsort(s) != rsort(t)) continue; vh_note_len = 0; vh_note_buf[0] = 0; vh_note("s=%s t=%s initially %s->%s", rshow(s), rshow(t), rshow(pre[p][0]), rshow(pre[p][1]));
      Term_p es = eterm(s), et = eterm(t);
      /* unification */
      if (p) SubstAddBinding(sub, eterm(pre[p][0]), eterm(pre[p][1])); PStackPointer pos = PStackGetSP(sub); snap(); memset(mu, -1, sizeof mu); if (p) mu[RVAR(pre[p][0])] = pre[p][1]; int want = uni(s, t);
      bool got = SubstMguComplete(es, et, sub);
      if (got != want) vh_fail("unify", "reported %sunifiable", got ? "" : "not ");
      else if (!got) { if (PStackGetSP(sub) != pos || !same()) vh_fail("unify-backtrack", "a failed unification changed the bindings"); }
      else { nu++; int bad = 0; for (i = 0; i < nvars && !bad; i++) bad = cyc(eterm(vars[i]), 0); if (bad) vh_fail("unify-cyclic", "cyclic bindings"); else { if (rof(es, 1) != rof(et, 1)) vh_fail("unify-notequal", "the substitution does not make the terms equal: %s, %s", rshow(rof(es, 1)), rshow(rof(et, 1)));
          memset(fw, -1, sizeof fw); memset(bw, -1, sizeof bw); for (i = 0; i < nvars; i++) if (!variant(res(vars[i]), rof(eterm(vars[i]), 1))) { vh_fail("unify-notgeneral", "not most general: X%d -> %s instead of %s", RVAR(vars[i]), rshow(rof(eterm(vars[i]), 1)), rshow(res(vars[i]))); break; }
          if (p == 0 && RISVAR(s) && RISVAR(t)) { if (!SubstIsRenaming(sub) ) vh_fail("renaming", "a variable-to-variable binding is not called a renaming"); } } }
      SubstBacktrackToPos(sub, pos); if (!same()) vh_fail("backtrack", "bindings not restored by backtracking"); SubstBacktrack(sub); for (i = 0; i < nvars; i++) if (eterm(vars[i])->binding) { vh_fail("backtrack", "variable still bound after complete backtracking"); eterm(vars[i])->binding = NULL; }
      /* matching: s onto t, all variables of t kept */
      if (p == 0 || RISVAR(pre[p][0])) { if (p) SubstAddBinding(sub, eterm(pre[p][0]), eterm(pre[p][1])); pos = PStackGetSP(sub); snap(); memset(mu, -1, sizeof mu); if (p) mu[RVAR(pre[p][0])] = pre[p][1]; if (p && roccurs(pre[p][0], t)) { SubstBacktrack(sub); continue; } want = match(s, t); got = SubstMatchComplete(es, et, sub);
        if (got != want) vh_fail("match", "reported %smatching", got ? "" : "not "); else if (!got) { if (PStackGetSP(sub) != pos || !same()) vh_fail("match-backtrack", "a failed match changed the bindings"); }
        else { nm++; for (i = 0; i < nvars; i++) { Term_p b = eterm(vars[i])->binding; int m = mu[RVAR(vars[i])]; int occs = roccurs(vars[i], s); if ((m >= 0 && occs && m != vars[i] && b != eterm(m)) || (!occs && b != bnd[i])) { vh_fail("match-wrong", "X%d bound to %s instead of %s", RVAR(vars[i]), b ? rshow(rof(b, 0)) : "nothing", m >= 0 ? rshow(m) : "nothing"); break; } } }
        SubstBacktrackToPos(sub, pos); if (!same()) vh_fail("backtrack", "bindings not restored"); SubstBacktrack(sub); for (i = 0; i < nvars; i++) if (eterm(vars[i])->binding) { vh_fail("backtrack", "variable still bound"); eterm(vars[i])->binding = NULL; } } }
    vh_outcome(s); if (si % 97 == 0) vh_sample(); }
  vh_stat("unifiable", nu); vh_stat("matching", nm); return vh_done(); }
