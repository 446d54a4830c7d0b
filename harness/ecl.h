/* ecl.h - reference literals and clauses and their E counterparts (needs ecore.h) */
typedef struct { int pos, l, r; } RLit; /* r < 0: predicate literal */
static char *rlshow(const RLit *p) { static char b[16][600]; static int w; char *s = b[w = (w + 1) & 15]; if (p->r < 0) snprintf(s, 600, "%s%s", p->pos ? "" : "~", rshow(p->l)); else snprintf(s, 600, "%s%s%s", rshow(p->l), p->pos ? "=" : "!=", rshow(p->r)); return s; }
static Eqn_p elit(const RLit *p) { return EqnAlloc(eterm(p->l), p->r < 0 ? bank->true_term : eterm(p->r), bank, p->pos); }
static Clause_p eclause(const RLit *l, int n) { Eqn_p list = NULL; int i; for (i = n - 1; i >= 0; i--) { Eqn_p e = elit(&l[i]); e->next = list; list = e; } Clause_p c = ClauseAlloc(list); return c; }
/* literals of an E clause; returns number or -1 */
static int rclause(Clause_p c, RLit *out, int max) { int n = 0; Eqn_p e; for (e = c->literals; e; e = e->next) { if (n >= max) return -1; out[n].pos = EqnIsPositive(e); out[n].l = rof(e->lterm, 0); out[n].r = e->rterm == bank->true_term ? -1 : rof(e->rterm, 0); if (out[n].l < 0) return -1; n++; } return n; }
/* one-sided matching on reference terms: variables of s get bound (t's variables are constants) */
static int rmatch(int s, int t, int *b) { if (RISVAR(s)) { int v = RVAR(s); if (rsort(s) != rsort(t) || (!RISVAR(t) && rsym[rt[t].f].pred)) return 0; if (b[v] < 0) { b[v] = t; return 1; } return b[v] == t; } if (rt[s].f != rt[t].f) return 0; int i; for (i = 0; i < rt[s].n; i++) if (!rmatch(rt[s].a[i], rt[t].a[i], b)) return 0; return 1; }
#define RB 16
static int rmatchlit(const RLit *s, const RLit *t, int sw, int *b) { if (s->pos != t->pos || (s->r < 0) != (t->r < 0)) return 0; if (s->r < 0) return !sw && rmatch(s->l, t->l, b); return sw ? rmatch(s->l, t->r, b) && rmatch(s->r, t->l, b) : rmatch(s->l, t->l, b) && rmatch(s->r, t->r, b); }
/* C subsumes D: multiset (injective) or set mapping */
static int rsubs_rec(const RLit *c, int n, const RLit *d, int m, unsigned used, const int *b, int inj) { if (!n) return 1; int j, sw; for (j = 0; j < m; j++) if (!inj || !(used >> j & 1)) for (sw = 0; sw < 2; sw++) { int nb[RB]; memcpy(nb, b, sizeof nb); if (rmatchlit(c, &d[j], sw, nb) && rsubs_rec(c + 1, n - 1, d, m, used | 1u << j, nb, inj)) return 1; } return 0; }
static int rsubs(const RLit *c, int n, const RLit *d, int m, int inj) { int b[RB]; memset(b, -1, sizeof b); if (inj && n > m) return 0; return rsubs_rec(c, n, d, m, 0, b, inj); }
/* unit equation s=t justifies u[s']=u[t'] at one position */
static int reqsub(const RLit *u, int a, int b) { int s[RB]; memset(s, -1, sizeof s); if (rmatch(u->l, a, s) && rmatch(u->r, b, s)) return 1; memset(s, -1, sizeof s); if (rmatch(u->l, b, s) && rmatch(u->r, a, s)) return 1; if (RISVAR(a) || rt[a].f != rt[b].f) return 0; int i, d = -1; for (i = 0; i < rt[a].n; i++) if (rt[a].a[i] != rt[b].a[i]) { if (d >= 0) return 0; d = i; } return d >= 0 && reqsub(u, rt[a].a[d], rt[b].a[d]); }
static int runitsubs(const RLit *u, const RLit *d, int m) { int j; for (j = 0; j < m; j++) { if (u->pos && u->r >= 0 && d[j].pos && d[j].r >= 0 && reqsub(u, d[j].l, d[j].r)) return 1; if (rsubs(u, 1, d + j, 1, 1)) return 1; } return 0; }
