/* ecore.h - reference terms (hash-consed, by number) and their counterparts in E's term store */
#ifndef ECORE_H
#define ECORE_H
#include "vh.h"
#include <cio_initio.h>
#include <cio_scanner.h>
#include <cte_termbanks.h>
#include <cte_match_mgu_1-1.h>
#include <cte_subst.h>
#include <cte_termfunc.h>
#include <ccl_clauses.h>
#include <ccl_clausesets.h>
#include <cto_orderings.h>
bool app_encode __attribute__((weak)) = false; /* normally defined by the main programs */
/* ---- reference terms: number -> head and arguments; heads >= 0 function symbols, < 0 variables */
#define RMAX 400000
#define RARGS 4
typedef struct { short f; short n; int a[RARGS]; int w; unsigned char ground, depth; } RT;
static RT rt[RMAX]; static int rtn; static int *rhash; static Term_p rterm[RMAX];
#define RHS (1 << 21)
static int rmk(int f, int n, const int *a) { unsigned h = 2166136261u ^ (unsigned)(f + 77); int i; h *= 16777619u; for (i = 0; i < n; i++) { h ^= (unsigned)a[i] + 0x9e37; h *= 16777619u; h ^= h >> 13; }
  if (!rhash) { rhash = malloc(RHS * sizeof(int)); memset(rhash, -1, RHS * sizeof(int)); }
  unsigned p = h & (RHS - 1); while (rhash[p] >= 0) { RT *t = &rt[rhash[p]]; if (t->f == f && t->n == n) { for (i = 0; i < n && t->a[i] == a[i]; i++); if (i == n) return rhash[p]; } p = (p + 1) & (RHS - 1); }
  if (rtn >= RMAX) { fprintf(stderr, "term table full\n"); abort(); }
  RT *t = &rt[rtn]; t->f = f; t->n = n; t->w = 1; t->ground = f >= 0; t->depth = 1; for (i = 0; i < n; i++) { t->a[i] = a[i]; t->w += rt[a[i]].w; t->ground &= rt[a[i]].ground; if (rt[a[i]].depth + 1 > t->depth) t->depth = rt[a[i]].depth + 1; }
  rterm[rtn] = NULL; rhash[p] = rtn; return rtn++; }
static int rvar(int v) { return rmk(-1 - v, 0, NULL); }
#define RVAR(t) (-1 - rt[t].f)
#define RISVAR(t) (rt[t].f < 0)
/* ---- signature */
typedef struct { const char *name; int ar; int pred; FunCode code; int rs, as[RARGS]; } RSym; /* rs, as: sorts (0 individuals, 1 second sort); variables 8.. have sort 1 */
static RSym rsym[32]; static int rsymn; static TB_p bank; static Sig_p sig; static Type_p itype, jtype;
static int rsymadd(const char *n, int ar, int pred) { rsym[rsymn].name = n; rsym[rsymn].ar = ar; rsym[rsymn].pred = pred; return rsymn++; }
static void ecore_bank(void) { problemType = PROBLEM_FO; TypeBank_p tb = TypeBankAlloc(); sig = SigAlloc(tb); SigInsertInternalCodes(sig); bank = TBAlloc(sig); itype = tb->i_type; jtype = TypeBankInsertTypeShared(tb, AllocSimpleSort(TypeBankDefineSimpleSort(tb, "jj"))); int i; for (i = 0; i < rsymn; i++) { rsym[i].code = SigInsertId(sig, rsym[i].name, rsym[i].ar, false);
    Type_p args[RARGS + 1]; int j; for (j = 0; j < rsym[i].ar; j++) args[j] = rsym[i].as[j] ? jtype : tb->i_type; Type_p res = rsym[i].pred ? tb->bool_type : rsym[i].rs ? jtype : tb->i_type; args[rsym[i].ar] = res; Type_p ty; if (rsym[i].ar) { Type_p *av = TypeArgArrayAlloc(rsym[i].ar + 1); for (j = 0; j <= rsym[i].ar; j++) av[j] = args[j]; ty = AllocArrowType(rsym[i].ar + 1, av); ty = TypeBankInsertTypeShared(tb, ty); } else ty = res;
    SigDeclareFinalType(sig, rsym[i].code, ty); SigSetFuncProp(sig, rsym[i].code, rsym[i].pred ? FPTypeFixed | FPTypePoly * 0 : FPTypeFixed); } }
static Term_p evar(int v) { return VarBankVarAssertAlloc(bank->vars, -2 * (v + 1), v >= 8 ? jtype : itype); }
static int rsort(int t) { return RISVAR(t) ? RVAR(t) >= 8 : rsym[rt[t].f].rs; }
/* the term in E's store (cached; only valid while nothing is collected) */
static Term_p eterm(int t) { if (rterm[t]) return rterm[t]; Term_p r; if (RISVAR(t)) r = evar(RVAR(t)); else { r = TermTopAlloc(rsym[rt[t].f].code, rt[t].n); int i; for (i = 0; i < rt[t].n; i++) r->args[i] = eterm(rt[t].a[i]); r = TBTermTopInsert(bank, r); } return rterm[t] = r; }
/* back: E term (bindings followed if deref) to reference number; unknown symbols or variables give new ids */
static int rvarOf(Term_p v) { return rvar((int)(-v->f_code) / 2 - 1 + ((-v->f_code) & 1 ? 100 : 0)); }
static int rof(Term_p t, int deref) { if (deref) while (TermIsFreeVar(t) && t->binding) t = t->binding; if (TermIsFreeVar(t)) return rvarOf(t); int i, f = -1, a[RARGS]; for (i = 0; i < rsymn; i++) if (rsym[i].code == t->f_code) f = i; if (f < 0 || t->arity > RARGS) return -1; for (i = 0; i < t->arity; i++) if ((a[i] = rof(t->args[i], deref)) < 0) return -1; return rmk(f, t->arity, a); }
static int rsub(int t, const int *s) { if (RISVAR(t)) return RVAR(t) < 16 && s[RVAR(t)] >= 0 ? s[RVAR(t)] : t; if (rt[t].ground) return t; int i, a[RARGS]; for (i = 0; i < rt[t].n; i++) a[i] = rsub(rt[t].a[i], s); return rmk(rt[t].f, rt[t].n, a); }
static int roccurs(int v, int t) { if (t == v) return 1; int i; for (i = 0; i < rt[t].n; i++) if (roccurs(v, rt[t].a[i])) return 1; return 0; }
static char *rshow(int t) { static char buf[64][4096]; static int w; char *b = buf[w = (w + 1) & 63]; int l = 0; if (t < 0) return strcpy(b, "?"); if (RISVAR(t)) { sprintf(b, "X%d", RVAR(t)); return b; } l = sprintf(b, "%s", rsym[rt[t].f].name); int i; for (i = 0; i < rt[t].n; i++) { char tmp[2048]; snprintf(tmp, sizeof tmp, "%s", rshow(rt[t].a[i])); l += snprintf(b + l, 4000 - l, "%s%s", i ? "," : "(", tmp); } if (rt[t].n) strcpy(b + l, ")"); return b; }
/* all terms with at most maxw nodes, function symbols fs[0..nf), variables 0..nv */
static int gen_nv1;
static int gen_terms(int maxw, int nv, int *out, int max) { int n = 0, w, i; static int byw[64][60000]; int cw[64] = {0};
  for (w = 1; w <= maxw; w++) { if (w == 1) { for (i = 0; i < nv; i++) byw[1][cw[1]++] = rvar(i); for (i = 0; i < gen_nv1; i++) byw[1][cw[1]++] = rvar(8 + i); }
    for (i = 0; i < rsymn; i++) if (!rsym[i].pred) { int ar = rsym[i].ar, a[RARGS]; if (ar == 0) { if (w == 1) byw[1][cw[1]++] = rmk(i, 0, NULL); continue; }
        int ws[RARGS]; int k; for (k = 0; k < ar; k++) ws[k] = 1; /* all compositions of w-1 */
        while (1) { int s = 0; for (k = 0; k < ar; k++) s += ws[k]; if (s == w - 1) { int ix[RARGS] = {0}; int ok = 1; for (k = 0; k < ar; k++) if (!cw[ws[k]]) ok = 0; while (ok) { for (k = 0; k < ar; k++) a[k] = byw[ws[k]][ix[k]]; int wt = 1; for (k = 0; k < ar; k++) if (rsort(a[k]) != rsym[i].as[k]) wt = 0; if (wt && cw[w] < 60000) byw[w][cw[w]++] = rmk(i, ar, a); for (k = 0; k < ar && ++ix[k] == cw[ws[k]]; k++) ix[k] = 0; if (k == ar) break; } }
          for (k = 0; k < ar && ++ws[k] > w - 1; k++) ws[k] = 1; if (k == ar) break; } } 
    for (i = 0; i < cw[w] && n < max; i++) out[n++] = byw[w][i]; }
  return n; }
static Scanner_p escan(const char *s) { Scanner_p in = CreateScanner(StreamTypeUserString, (char *)s, true, NULL, true); ScannerSetFormat(in, TSTPFormat); return in; }
#endif
