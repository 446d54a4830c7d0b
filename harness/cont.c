/* cont.c - C14: every operation sequence up to a bound on each basic container, against a reference model */
#include "vh.h"
#include <clb_ptrees.h>
#include <clb_objtrees.h>
#include <clb_objmaps.h>
#include <clb_numtrees.h>
#include <clb_numxtrees.h>
#include <clb_stringtrees.h>
#include <clb_floattrees.h>
#include <clb_quadtrees.h>
#include <clb_pqueue.h>
#include <clb_pstacks.h>
#include <clb_plist.h>
#include <clb_pdarrays.h>
#include <clb_pdrangearrays.h>
#include <clb_intmap.h>
#include <clb_min_heap.h>
#include <clb_dstrings.h>
#include <clb_dstacks.h>
#define MAXK 12
static int K, D, P;                   /* keys, free operations, keys inserted in every order first */
static char pres[MAXK]; static long v1[MAXK], v2[MAXK]; static char pool[4096];
static int isnew(void) { return vh_pos - 1 >= vh_changed; }
static int cnt(void) { int i, n = 0; for (i = 0; i < K; i++) n += pres[i]; return n; }
static void reset(void) { memset(pres, 0, sizeof pres); }
#define BAD(...) vh_fail(kind, __VA_ARGS__)
static const char *kind;
/* next operation: first P insertions in every order, then D free operations; returns 0 at the end */
static int step, perm_used;
static int next_op(int nops, int *op, int *key) {
  if (step == 0) perm_used = 0;
  if (step < P) { int c = choose(P - step), i; for (i = 0;; i++) if (!(perm_used >> i & 1)) { if (c-- == 0) break; } perm_used |= 1 << i; *op = 0; *key = i; step++; vh_note("ins %d; ", i); return 1; }
  if (step == P + D) return 0;
  int c = choose(nops * K); *op = c / K; *key = c % K; step++; vh_note("op%d %d; ", *op, *key); return 1; }
static void *pk(int k) { static int s[] = {3, 1, 4, 0, 5, 2, 7, 6, 9, 8, 11, 10}; return pool + 16 * (s[k] + 1); }   /* pointer keys */
static int pkrank(void *p) { return ((char *)p - pool) / 16 - 1; }
static int keyOfRank(int r) { int k; for (k = 0; k < MAXK; k++) if (pkrank(pk(k)) == r) return k; return -1; }
/* ---- generic tree test: ops 0 store 1 find 2 extract/delete 3 (second form of delete) 4 root */
#define ORDERED_CHECK(T, TYPE, ROOT, KEYIDX, LESS, VALS) do { PStack_p st = T##TraverseInit(ROOT); TYPE n; int c = 0, last = -1; char seen[MAXK] = {0}; while ((n = T##TraverseNext(st))) { int k = KEYIDX; c++; if (k < 0 || k >= K || !pres[k]) { BAD("traversal visits key %d, which is not stored", k); break; } if (seen[k]++) { BAD("traversal visits key %d twice", k); break; } if (last >= 0 && !(LESS)) BAD("traversal visits key %d after %d", k, last); VALS; last = k; if (c > K) break; } PStackFree(st); if (c != cnt()) BAD("traversal visits %d elements instead of %d", c, cnt()); } while (0)
#define NLESS (last < k)
#define RLESS (pkrank(pk(last)) < pkrank(pk(k)))
#define VCHK if (n->val1.i_val != v1[k] || n->val2.i_val != v2[k]) BAD("values of key %d are %ld,%ld", k, n->val1.i_val, n->val2.i_val)
static int pcmp(const void *a, const void *b) { return PCmp(a, b); }
static void chkP(PTree_p root) { ORDERED_CHECK(PTree, PTree_p, root, keyOfRank(pkrank(n->key)), RLESS, ); if (PTreeNodes(root) != cnt()) BAD("PTreeNodes gives %ld instead of %d", PTreeNodes(root), cnt()); }
static void t_ptree(void) { PTree_p root = NULL, c; int op, k; void *q;
  while (next_op(6, &op, &k)) { vh_trans++;
    switch (op) {
    case 0: { bool r = PTreeStore(&root, pk(k)); if (r != !pres[k]) BAD("store of key %d returns %d", k, r); pres[k] = 1; } break;
    case 1: c = PTreeFind(&root, pk(k)); if ((c != NULL) != pres[k] || (c && c->key != pk(k))) BAD("find of key %d wrong", k); break;
    case 2: c = PTreeExtractEntry(&root, pk(k)); if ((c != NULL) != pres[k] || (c && c->key != pk(k))) BAD("extract of key %d wrong", k); if (c) PTreeCellFree(c); pres[k] = 0; break;
    case 3: { bool r = PTreeDeleteEntry(&root, pk(k)); if (r != pres[k]) BAD("delete of key %d returns %d", k, r); pres[k] = 0; } break;
    case 4: c = PTreeFindBinary(root, pk(k)); if ((c != NULL) != pres[k] || (c && c->key != pk(k))) BAD("binary find of key %d wrong", k); break;
    case 5: if (k == 0) { q = PTreeExtractRootKey(&root); if (!q) { if (cnt()) BAD("no root in a tree of %d", cnt()); } else { int kk = keyOfRank(pkrank(q)); if (kk < 0 || !pres[kk]) BAD("root key not stored"); else pres[kk] = 0; } }
      else { q = PTreeExtractKey(&root, pk(k)); if (q != (pres[k] ? pk(k) : NULL)) BAD("extract key %d wrong", k); pres[k] = 0; } break; }
    if (isnew()) { vh_states++; chkP(root); } }
  PTreeFree(root); }
/* set operations on two trees: every pair of subsets, each built in two orders and accessed once */
static PTree_p mkset(int m, int ord, int acc) { PTree_p t = NULL; int i; for (i = 0; i < K; i++) { int k = ord ? K - 1 - i : i; if (m >> k & 1) PTreeStore(&t, pk(k)); } if (acc < K) PTreeFind(&t, pk(acc)); return t; }
static int getmask(PTree_p t) { int m = 0; PStack_p st = PTreeTraverseInit(t); PTree_p n; while ((n = PTreeTraverseNext(st))) { int b = 1 << keyOfRank(pkrank(n->key)); if (m & b) { m = -1; break; } m |= b; } PStackFree(st); return m; }
static void visit(void *arg, void *p) { int *a = arg; a[0]++; a[1] |= 1 << keyOfRank(pkrank(p)); if (a[2] >= 0 && pkrank(p) <= a[2]) a[3] = 1; a[2] = pkrank(p); }
static void t_psets(void) { int a = choose(1 << K), b = choose(1 << K), o = choose(2), ac = choose(K + 1), f; vh_note("sets %x %x order %d access %d", a, b, o, ac); vh_states++; vh_trans += 9;
  for (f = 0; f < 11; f++) { PTree_p x = mkset(a, o, ac), y = mkset(b, !o, ac), z; bool r; void *q; long n;
    switch (f) {
    case 0: r = PTreeMerge(&x, y); y = NULL; if (getmask(x) != (a | b) || r != ((b & ~a) != 0)) BAD("merge"); break;
    case 1: PTreeInsertTree(&x, y); if (getmask(x) != (a | b) || getmask(y) != b) BAD("insert tree"); break;
    case 2: q = PTreeSharedElement(&x, y); if ((q != NULL) != ((a & b) != 0) || (q && !((a & b) >> keyOfRank(pkrank(q)) & 1))) BAD("shared element"); if (getmask(x) != a || getmask(y) != b) BAD("shared element changes a set"); break;
    case 3: z = PTreeIntersection(x, y); if (getmask(z) != (a & b) || getmask(x) != a || getmask(y) != b) BAD("intersection"); PTreeFree(z); break;
    case 4: n = PTreeDestrIntersection(&x, y); if (getmask(x) != (a & b) || getmask(y) != b) BAD("destructive intersection gives %x", getmask(x)); break;
    case 5: z = PTreeCopy(x); if (getmask(z) != a || getmask(x) != a) BAD("copy"); PTreeFree(z); break;
    case 6: if (PTreeEquiv(x, y) != (a == b)) BAD("equivalence"); if (getmask(x) != a || getmask(y) != b) BAD("equivalence changes a set"); break;
    case 7: if (PTreeIsSubset(x, &y) != ((a & ~b) == 0)) BAD("subset"); if (getmask(x) != a || getmask(y) != b) BAD("subset changes a set"); break;
    case 8: { PStack_p s = PStackAlloc(); long i; int m = 0; n = PTreeToPStack(s, x); for (i = 0; i < PStackGetSP(s); i++) m |= 1 << keyOfRank(pkrank(PStackElementP(s, i))); if (m != a || PStackGetSP(s) != __builtin_popcount(a) || n != PStackGetSP(s)) BAD("tree to stack"); n = PStackToPTree(&y, s); if (getmask(y) != (a | b)) BAD("stack to tree"); PStackFree(s); } break;
    case 9: { int arg[4] = {0, 0, -1, 0}; PTreeVisitInOrder(x, visit, arg); if (arg[0] != __builtin_popcount(a) || arg[1] != a || arg[3]) BAD("visit in order"); } break;
    case 10: PTreeObjMerge(&x, y, pcmp); y = NULL; if (getmask(x) != (a | b)) BAD("object merge"); break; }
    PTreeFree(x); PTreeFree(y); } }
/* object trees: objects are equal by their number, several objects per number */
typedef struct { int num, id; } Obj; static Obj objs[2][MAXK]; static int ocmp(const void *a, const void *b) { return ((Obj *)a)->num - ((Obj *)b)->num; } static int ostored[MAXK];
static void t_obj(void) { PObjTree_p root = NULL, c; int op, k, i, j; void *q; for (i = 0; i < 2; i++) for (j = 0; j < MAXK; j++) { objs[i][j].num = j; objs[i][j].id = i; }
  while (next_op(6, &op, &k)) { vh_trans++; int w = step & 1; Obj *o = &objs[w][k];
    switch (op) {
    case 0: q = PTreeObjStore(&root, o, ocmp); if (pres[k] ? q != &objs[ostored[k]][k] : q != NULL) BAD("store of object %d returns the wrong object", k); if (!pres[k]) { pres[k] = 1; ostored[k] = w; } break;
    case 1: q = PTreeObjFindObj(&root, o, ocmp); if (q != (pres[k] ? &objs[ostored[k]][k] : NULL)) BAD("find of object %d", k); break;
    case 2: q = PTreeObjExtractObject(&root, o, ocmp); if (q != (pres[k] ? &objs[ostored[k]][k] : NULL)) BAD("extract of object %d", k); pres[k] = 0; break;
    case 3: c = PTreeObjExtractEntry(&root, o, ocmp); if ((c ? c->key : NULL) != (pres[k] ? &objs[ostored[k]][k] : NULL)) BAD("extract entry %d", k); if (c) PTreeCellFree(c); pres[k] = 0; break;
    case 4: c = PTreeObjFindBinary(root, o, ocmp); if ((c ? c->key : NULL) != (pres[k] ? &objs[ostored[k]][k] : NULL)) BAD("binary find %d", k); c = PTreeObjFind(&root, o, ocmp); if ((c ? c->key : NULL) != (pres[k] ? &objs[ostored[k]][k] : NULL)) BAD("find entry %d", k); break;
    case 5: if (k) break; q = PTreeObjExtractRootObject(&root, ocmp); if (!q) { if (cnt()) BAD("no root"); } else { i = ((Obj *)q)->num; if (!pres[i]) BAD("root object not stored"); pres[i] = 0; } break; }
    if (isnew()) { vh_states++; ORDERED_CHECK(PTree, PTree_p, root, ((Obj *)n->key)->num, NLESS, if (n->key != &objs[ostored[k]][k]) BAD("object %d replaced", k)); if (PObjTreeNodes(root) != cnt()) BAD("node count"); } }
  PObjTreeFree(root, DummyObjDelFun); }
static void t_map(void) { PObjMap_p root = NULL; int op, k; void *q, **ref; bool up; static PStack_p it; if (!it) it = PStackAlloc(); int i, j; for (i = 0; i < 2; i++) for (j = 0; j < MAXK; j++) { objs[i][j].num = j; objs[i][j].id = i; }
  while (next_op(4, &op, &k)) { vh_trans++; void *val = pool + 1000 + step; Obj *o = &objs[0][k];
    switch (op) {
    case 0: q = PObjMapStore(&root, o, val, ocmp); if (q != (pres[k] ? (void *)v1[k] : NULL)) BAD("store of key %d returns the wrong old value", k); pres[k] = 1; v1[k] = (long)val; break;
    case 1: q = PObjMapFind(&root, o, ocmp); if (q != (pres[k] ? (void *)v1[k] : NULL)) BAD("find of key %d", k); break;
    case 2: q = PObjMapExtract(&root, o, ocmp); if (q != (pres[k] ? (void *)v1[k] : NULL)) BAD("extract of key %d", k); pres[k] = 0; break;
    case 3: up = !pres[k] ? false : true; ref = PObjMapGetRef(&root, o, ocmp, &up); if (up != !pres[k]) { if (!pres[k] || up) BAD("reference to key %d: updated flag %d", k, up); } if (pres[k] && *ref != (void *)v1[k]) BAD("reference to key %d", k); *ref = val; pres[k] = 1; v1[k] = (long)val; break; }
    if (isnew()) { vh_states++; PObjMapTraverseInit(root, it); int c = 0, last = -1; void *kk; while (!PStackEmpty(it) && (q = PObjMapTraverseNext(it, &kk))) { int x = ((Obj *)kk)->num; c++; if (!pres[x] || q != (void *)v1[x]) BAD("traversal gives key %d with the wrong value", x); if (x <= last) BAD("traversal order"); last = x; if (c > K) break; } PObjMapTraverseExit(it); if (c != cnt()) BAD("traversal visits %d instead of %d", c, cnt()); } }
  PObjMapFree(root); }
#define NUMTEST(T, TYPE, FREE, KEY, IDX, LIMITED, MAXN) \
  { TYPE root = NULL, c; int op, k; IntOrP a, b; \
  while (next_op(5, &op, &k)) { vh_trans++; a.i_val = step * 10 + 1; b.i_val = step * 10 + 2; \
    switch (op) { \
    case 0: { int r = T##Store(&root, KEY(k), a, b) != 0; if (r != !pres[k]) BAD("store of key %d returns %d", k, r); if (!pres[k]) { pres[k] = 1; v1[k] = a.i_val; v2[k] = b.i_val; } } break; \
    case 1: c = T##Find(&root, KEY(k)); if ((c != NULL) != pres[k] || (c && IDX(c) != k)) BAD("find of key %d wrong", k); break; \
    case 2: c = T##ExtractEntry(&root, KEY(k)); if ((c != NULL) != pres[k] || (c && IDX(c) != k)) BAD("extract of key %d wrong", k); if (c) { FREE; } pres[k] = 0; break; \
    case 3: { int r = T##DeleteEntry(&root, KEY(k)) != 0; if (r != pres[k]) BAD("delete of key %d returns %d", k, r); pres[k] = 0; } break; \
    case 4: LIMITED; break; } \
    if (isnew()) { vh_states++; ORDERED_CHECK(T, TYPE, root, IDX(n), NLESS, VC(T)); MAXN; } } \
  T##Free(root); }
#define VC(T) VC_##T
#define VC_NumTree VCHK
#define VC_StrTree VCHK
#define VC_FloatTree VCHK
#define VC_NumXTree if (n->vals[0].i_val != v1[k] || n->vals[1].i_val != v2[k]) BAD("values of key %d", k)
static long nk(int k) { return (k - 2) * 1000003L; } static int nkidx(long x) { int k; for (k = 0; k < MAXK; k++) if (nk(k) == x) return k; return -1; }
#define NIDX(c) nkidx((c)->key)
#define LIM(T, TYPE) { PStack_p s = T##LimitedTraverseInit(root, nk(k)); TYPE n; int i = k; while ((n = T##TraverseNext(s))) { while (i < K && !pres[i]) i++; if (i >= K || NIDX(n) != i) { BAD("limited traversal from %d gives %d", k, NIDX(n)); break; } i++; } while (i < K && !pres[i]) i++; if (!n && i < K) BAD("limited traversal from %d misses %d", k, i); PStackFree(s); if (k == 1) { c = T##ExtractRoot(&root); if (!c) { if (cnt()) BAD("no root"); } else { int x = NIDX(c); if (x < 0 || !pres[x]) BAD("root not stored"); else pres[x] = 0; T##CellFree(c); } } }
#define MAXNODE(T) { if (T##Nodes(root) != cnt()) BAD("node count"); if (root) { int m = K - 1; while (!pres[m]) m--; if (T##MaxKey(root) != nk(m)) BAD("maximal key"); } }
static void t_num(void) NUMTEST(NumTree, NumTree_p, NumTreeCellFree(c), nk, NIDX, LIM(NumTree, NumTree_p), MAXNODE(NumTree))
static void t_numx(void) NUMTEST(NumXTree, NumXTree_p, NumXTreeCellFree(c), nk, NIDX, LIM(NumXTree, NumXTree_p), MAXNODE(NumXTree))
static const char *sks[] = {"", "a", "aa", "ab", "b", "ba", "c", "d", "e", "f", "g", "h"};
static char *sk(int k) { return (char *)sks[k]; } static int skidx(const char *s) { int k; for (k = 0; k < MAXK; k++) if (!strcmp(s, sks[k])) return k; return -1; }
#define SIDX(c) skidx((c)->key)
static void t_str(void) NUMTEST(StrTree, StrTree_p, { FREE(c->key); StrTreeCellFree(c); }, sk, SIDX, , )
static double fk(int k) { return (k - 2) * 0.25; } static int fkidx(double x) { int k; for (k = 0; k < MAXK; k++) if (fk(k) == x) return k; return -1; }
#define FIDX(c) fkidx((c)->key)
static void t_float(void) NUMTEST(FloatTree, FloatTree_p, FloatTreeCellFree(c), fk, FIDX, , if (FloatTreeNodes(root) != cnt()) BAD("node count"))
/* quad trees: keys that share all but one component */
static QuadKey qk(int k) { QuadKey q; q.p1 = pool + 16 * (1 + (k & 1)); q.i1 = k >> 1 & 1; q.p2 = pool + 16 * (1 + (k >> 2 & 1)); q.i2 = k >> 3 & 1; return q; }
static void t_quad(void) { QuadTree_p root = NULL, c; int op, k; IntOrP a;
  while (next_op(4, &op, &k)) { vh_trans++; QuadKey q = qk(k); a.i_val = step;
    switch (op) {
    case 0: { bool r = QuadTreeStore(&root, &q, a); if (r != !pres[k]) BAD("store of key %d", k); if (!pres[k]) { pres[k] = 1; v1[k] = step; } } break;
    case 1: c = QuadTreeFind(&root, &q); if ((c != NULL) != pres[k] || (c && c->val.i_val != v1[k])) BAD("find of key %d", k); break;
    case 2: c = QuadTreeExtractEntry(&root, &q); if ((c != NULL) != pres[k] || (c && c->val.i_val != v1[k])) BAD("extract of key %d", k); if (c) QuadTreeCellFree(c); pres[k] = 0; break;
    case 3: { bool r = QuadTreeDeleteEntry(&root, &q); if (r != pres[k]) BAD("delete of key %d", k); pres[k] = 0; } break; }
    if (isnew()) { vh_states++; PStack_p st = QuadTreeTraverseInit(root); int n = 0; char seen[MAXK] = {0}; QuadKey prev; while ((c = QuadTreeTraverseNext(st))) { int i, f = -1; for (i = 0; i < K; i++) { QuadKey x = qk(i); if (x.p1 == c->key.p1 && x.i1 == c->key.i1 && x.p2 == c->key.p2 && x.i2 == c->key.i2) f = i; } if (f < 0 || !pres[f] || seen[f]++ || c->val.i_val != v1[f]) { BAD("traversal gives a wrong entry"); break; } if (n && QuadKeyCmp(&prev, &c->key) >= 0) BAD("traversal order"); prev = c->key; if (++n > K) break; } PStackFree(st); if (n != cnt()) BAD("traversal visits %d of %d", n, cnt()); } }
  QuadTreeFree(root); }
/* sequences */
#define SEQ 4096
static long seq[SEQ]; static int sb, se;      /* reference deque */
static void t_queue(void) { PQueue_p q = PQueueAlloc(); int i, fill = choose(3), base = choose(2), j; sb = se = 1024; /* start near the point of growth, at different places of the ring */
  int shift = choose(4) * 3, n = (fill == 0 ? 0 : fill == 1 ? q->size - 3 : 2 * q->size - 3); for (i = 0; i < shift; i++) { if (base) PQueueStoreInt(q, -5); else PQueueBuryInt(q, -5); } for (i = 0; i < shift; i++) { if (base) PQueueGetNext(q); else PQueueGetLast(q); }
  for (i = 0; i < n; i++) { PQueueStoreInt(q, i + 100); seq[se++] = i + 100; } vh_note("fill %d shift %d; ", n, shift);
  for (i = 0; i < D; i++) { int op = choose(6); vh_trans++; vh_note("op%d;", op); long x; j = se - sb;
    switch (op) {
    case 0: PQueueStoreInt(q, i + 1); seq[se++] = i + 1; break;
    case 1: PQueueBuryInt(q, i + 50); seq[--sb] = i + 50; break;
    case 2: if (j) { x = PQueueGetNextInt(q); if (x != seq[sb++]) BAD("next element %ld instead of %ld", x, seq[sb - 1]); } break;
    case 3: if (j) { x = PQueueGetLastInt(q); if (x != seq[--se]) BAD("last element %ld instead of %ld", x, seq[se]); } break;
    case 4: if (j) { if (PQueueLookInt(q) != seq[sb] || PQueueLookLastInt(q) != seq[se - 1]) BAD("look"); } break;
    case 5: if (choose(2)) { PQueueReset(q); sb = se = 1024; } break; }
    if (PQueueEmpty(q) != (sb == se)) BAD("emptiness");
    if (isnew()) { vh_states++; if (PQueueCardinality(q) != se - sb) BAD("cardinality %ld instead of %d", PQueueCardinality(q), se - sb); long ix = PQueueTailIndex(q); int c = 0; while (ix != -1 && c <= se - sb) { if (c < se - sb && PQueueElementInt(q, ix) != seq[sb + c]) { BAD("element %d wrong", c); break; } c++; ix = PQueueIncIndex(q, ix); } if (c != se - sb) BAD("iteration visits %d of %d", c, se - sb); } }
  while (sb < se) if (PQueueEmpty(q) || PQueueGetNextInt(q) != seq[sb++]) { BAD("drain"); break; }
  PQueueFree(q); }
static int scmp(const void *a, const void *b) { long x = ((const IntOrP *)a)->i_val, y = ((const IntOrP *)b)->i_val; return x < y ? -1 : x > y; }
static int vcmp(const void *a, const void *b) { return (long)a < (long)b ? -1 : (long)a > (long)b; }
static void t_stack(void) { int pre = choose(3); PStack_p s = choose(2) ? PStackVarAlloc(2) : PStackAlloc(), s2; int n = 0, i, j; long m = pre == 0 ? 0 : pre == 1 ? 127 : 255; for (i = 0; i < m; i++) { PStackPushInt(s, i * 7 % 11); seq[n++] = i * 7 % 11; }
  for (i = 0; i < D; i++) { int op = choose(9); vh_trans++; vh_note("op%d;", op);
    switch (op) {
    case 0: PStackPushInt(s, i); seq[n++] = i; break;
    case 1: PStackPushInt(s, 20 - i); seq[n++] = 20 - i; break;
    case 2: if (n) { long x = PStackPopInt(s); if (x != seq[--n]) BAD("pop"); } break;
    case 3: if (n) { j = choose(3); j = j == 0 ? 0 : j == 1 ? n - 1 : n / 2; PStackDiscardElement(s, j); n--; seq[j] = seq[n]; } break;
    case 4: PStackSort(s, scmp); { int a, b; for (a = 1; a < n; a++) { long x = seq[a]; for (b = a; b && seq[b - 1] > x; b--) seq[b] = seq[b - 1]; seq[b] = x; } } break;
    case 5: s2 = PStackCopy(s); PStackFree(s); s = s2; break;
    case 6: s2 = PStackAlloc(); PStackPushInt(s2, 31); PStackPushInt(s2, 32); PStackPushStack(s, s2); seq[n++] = 31; seq[n++] = 32; PStackFree(s2); break;
    case 7: if (n >= 2) { if (PStackTopInt(s) != seq[n - 1] || PStackBelowTopInt(s) != seq[n - 2] || PStackTopAddr(s)->i_val != seq[n - 1]) BAD("top"); PStackAssignInt(s, 1, 77); seq[1] = 77; } break;
    case 8: if (n) { PStackDiscardTop(s); n--; } break; }
    if (isnew()) { vh_states++; if (PStackGetSP(s) != n || PStackEmpty(s) != (n == 0)) BAD("stack size %ld instead of %d", PStackGetSP(s), n); else for (j = 0; j < n; j++) if (PStackElementInt(s, j) != seq[j]) { BAD("element %d is %ld instead of %ld", j, PStackElementInt(s, j), seq[j]); break; } for (j = 0; j < 8; j++) { int f = 0, x; for (x = 0; x < n; x++) if (seq[x] == j) f = 1; if (PStackFindInt(s, j) != f) BAD("find %d", j); } } }
  PStackFree(s); }
static void t_search(void) { /* sorted stacks: every subset of 0..9, every key; merges of every pair of small subsets */
  int mode = choose(2); if (mode == 0) { int m = choose(1 << 9), lo, i, n = 0; PStack_p s = PStackAlloc(); for (i = 0; i < 9; i++) if (m >> i & 1) { PStackPushP(s, (void *)(long)(2 * i + 1)); n++; } vh_states++;
      int key, up; for (lo = 0; lo <= n; lo++) for (up = lo; up <= n; up++) for (key = 0; key < 20; key++) { vh_trans++; long r = PStackBinSearch(s, (void *)(long)key, lo, up, vcmp), x, found = -1, bigger = up; for (x = up - 1; x >= lo; x--) { long e = (long)PStackElementP(s, x); if (e == key) found = x; if (e > key) bigger = x; } if (r != (found >= 0 ? found : bigger)) { vh_note("sorted stack of %d, key %d in [%d,%d)", n, key, lo, up); BAD("binary search gives %ld instead of %ld", r, found >= 0 ? found : bigger); lo = n + 1; up = n + 1; break; } }
      PStackFree(s); }
  else { int a = choose(64), b = choose(64), i; PStack_p s = PStackAlloc(), t = PStackAlloc(), r = PStackAlloc(); /* stacks are read from the top, so "sorted" means smallest on top */ for (i = 5; i >= 0; i--) { if (a >> i & 1) PStackPushInt(s, i); if (b >> i & 1) PStackPushInt(t, i); } PStackMerge(s, t, r, scmp); int n = 0; for (i = 0; i < 6; i++) if ((a | b) >> i & 1) { if (n >= PStackGetSP(r) || PStackElementInt(r, n) != i) { BAD("merge of %x and %x", a, b); break; } n++; } if (n != PStackGetSP(r)) BAD("merge of %x and %x has %ld elements", a, b, PStackGetSP(r)); PStackFree(s); PStackFree(t); PStackFree(r); vh_states++; vh_trans++; } }
static void t_list(void) { PList_p l = PListAlloc(), c; int n = 0, i, j;
  for (i = 0; i < D; i++) { int op = choose(4), p = n ? choose(n) : 0; vh_trans++; vh_note("op%d %d;", op, p); c = l; 
    switch (op) {
    case 0: PListStoreInt(l, i); for (j = n; j > 0; j--) seq[j] = seq[j - 1]; seq[0] = i; n++; break;     /* after the anchor: front */
    case 1: for (j = 0; j <= p && n; j++) c = c->succ; PListStoreInt(c, i + 10); j = n ? p + 1 : 0; { int x; for (x = n; x > j; x--) seq[x] = seq[x - 1]; seq[j] = i + 10; n++; } break;
    case 2: case 3: if (n) { for (j = 0; j <= p; j++) c = c->succ; if (op == 2) { PListDelete(c); } else { c = PListExtract(c); if (c->key.i_val != seq[p]) BAD("extracted element"); PListCellFree(c); } for (j = p; j + 1 < n; j++) seq[j] = seq[j + 1]; n--; } break; }
    if (PListEmpty(l) != (n == 0)) BAD("emptiness");
    if (isnew()) { vh_states++; for (c = l->succ, j = 0; c != l && j <= n; c = c->succ, j++) if (j >= n || c->key.i_val != seq[j] || c->succ->pred != c) { BAD("element %d wrong", j); break; } if (c == l && j != n) BAD("%d elements instead of %d", j, n); } }
  PListFree(l); }
static void t_array(void) { int init = 1 + choose(3), grow = choose(3), isint = choose(2); static const long gr[] = {GROW_EXPONENTIAL, 1, 5}; PDArray_p a = isint ? PDIntArrayAlloc(init, gr[grow]) : PDArrayAlloc(init, gr[grow]), b; long ref[64] = {0}; static const int ix[] = {0, 1, 3, 7, 20}; int i, j;
  for (i = 0; i < D; i++) { int op = choose(6), x = ix[choose(5)]; vh_trans++; vh_note("op%d %d;", op, x); long z;
    switch (op) {
    case 0: PDArrayAssignInt(a, x, i + 1); ref[x] = i + 1; break;
    case 1: if (PDArrayElementInt(a, x) != ref[x]) BAD("element %d is %ld instead of %ld", x, PDArrayElementInt(a, x), ref[x]); break;
    case 2: if (isint) PDArrayElementDeleteInt(a, x); else PDArrayElementDeleteP(a, x); ref[x] = 0; break;
    case 3: z = PDArrayElementIncInt(a, x, 5); ref[x] += 5; if (z != ref[x]) BAD("increment gives %ld", z); break;
    case 4: for (z = 63; z >= 0 && !ref[z]; z--); z++; if (z < 60) { j = isint ? PDArrayStoreInt(a, 9) : PDArrayStoreP(a, (void *)9); if (j != z) BAD("stored at %d instead of %ld", j, z); ref[z] = 9; } break;
    case 5: if (x == 0) { b = PDArrayCopy(a); PDArrayFree(a); a = b; } else { b = PDIntArrayAlloc(3, 3); PDArrayAssignInt(b, 0, 2); PDArrayAssignInt(b, 7, 4); PDArrayAdd(a, b, x); if (x > 0) ref[0] += 2; if (x > 7) ref[7] += 4; PDArrayFree(b); } break; }
    if (isnew()) { vh_states++; long m = 0, f = 0; for (j = 0; j < 64; j++) { if (ref[j]) { m++; f = j + 1; } } if (PDArrayMembers(a) != m || PDArrayFirstUnused(a) != f) BAD("members %ld/%ld, first unused %ld/%ld", PDArrayMembers(a), m, PDArrayFirstUnused(a), f); for (j = 0; j < 64 && j < PDArraySize(a); j++) if (a->array[j].i_val != ref[j]) { BAD("element %d is %ld instead of %ld", j, a->array[j].i_val, ref[j]); break; } } }
  for (j = 0; j < 40; j++) if (PDArrayElementInt(a, j) != ref[j]) { BAD("element %d is %ld instead of %ld", j, PDArrayElementInt(a, j), ref[j]); break; }
  PDArrayFree(a); }
static void t_range(void) { static const int ix[] = {-20, -3, 0, 2, 9, 40}; int st = ix[choose(6)], grow = choose(3), isint = choose(2); static const long gr[] = {GROW_EXPONENTIAL, 1, 4}; PDRangeArr_p a = isint ? PDIntRangeArrAlloc(st, gr[grow]) : PDRangeArrAlloc(st, gr[grow]), b; long r0[128] = {0}, *ref = r0 + 64; int i, j; vh_note("start %d grow %ld;", st, gr[grow]);
  for (i = 0; i < D; i++) { int op = choose(5), x = ix[choose(6)]; vh_trans++; vh_note("op%d %d;", op, x); long z;
    switch (op) {
    case 0: PDRangeArrAssignInt(a, x, i + 1); ref[x] = i + 1; break;
    case 1: z = PDRangeArrElementInt(a, x); if (z != ref[x]) BAD("element %d is %ld instead of %ld", x, z, ref[x]); break;
    case 2: if (isint) PDRangeArrElementDeleteInt(a, x); else PDRangeArrElementDeleteP(a, x); ref[x] = 0; break;
    case 3: z = PDRangeArrElementIncInt(a, x, 5); ref[x] += 5; if (z != ref[x]) BAD("increment gives %ld", z); break;
    case 4: b = PDRangeArrCopy(a); PDRangeArrFree(a); a = b; break; }
    if (isnew()) { vh_states++; for (j = PDRangeArrLowKey(a); j < PDRangeArrLimitKey(a); j++) if (j >= -64 && j < 64 && a->array[j - a->offset].i_val != ref[j]) { BAD("element %d is %ld instead of %ld", j, a->array[j - a->offset].i_val, ref[j]); break; } for (j = -64; j < 64; j++) if (ref[j] && !PDRangeArrIndexIsCovered(a, j)) BAD("element %d lost", j); } }
  PDRangeArrFree(a); }
static void t_intmap(void) { static const long KS[4][6] = {{0, 1, 2, 3, 4, 5}, {-7, 0, 3, 50, 150, 900}, {10, 11, 13, 17, 40, 90}, {-3, -2, -1, 0, 1, 2}}; const long *ks = KS[choose(4)]; IntMap_p m = IntMapAlloc(); int i, j; char *val[6] = {0}; int run = choose(3); /* 0: none, 1: dense block first, 2: sparse block first */
  long blk[40]; int nb = 0; vh_note("keys %ld.. prefix %d;", ks[1], run); if (run) for (i = 0; i < 12; i++) { blk[nb] = run == 1 ? 200 + i : 200 + 37 * i; IntMapAssign(m, blk[nb], pool + 500 + i); nb++; }
  for (i = 0; i < D; i++) { int op = choose(4), x = choose(6); vh_trans++; vh_note("op%d %ld;", op, ks[x]); char *v = pool + 100 + i; void **r, *q;
    switch (op) {
    case 0: IntMapAssign(m, ks[x], v); val[x] = v; break;
    case 1: q = IntMapGetVal(m, ks[x]); if (q != val[x]) BAD("value of %ld wrong", ks[x]); break;
    case 2: q = IntMapDelKey(m, ks[x]); if (q != val[x]) BAD("deleting %ld returns the wrong value", ks[x]); val[x] = NULL; break;
    case 3: r = IntMapGetRef(m, ks[x]); if (!r || *r != val[x]) { BAD("reference to %ld wrong", ks[x]); } else { *r = v; val[x] = v; } break; }
    if (isnew()) { vh_states++; int lo, hi; for (lo = -1; lo < 6; lo++) for (hi = lo < 0 ? 0 : lo; hi <= 6; hi += 3) { long L = lo < 0 ? -1000 : ks[lo], H = hi >= 6 ? 2000 : ks[hi], k, last = -2000000; IntMapIter_p it = IntMapIterAlloc(m, L, H); int n = 0, want = 0; for (j = 0; j < 6; j++) if (val[j] && ks[j] >= L && ks[j] <= H) want++; for (j = 0; j < nb; j++) if (blk[j] >= L && blk[j] <= H) want++;
        while ((q = IntMapIterNext(it, &k))) { void *w = NULL; for (j = 0; j < 6; j++) if (ks[j] == k) w = val[j]; for (j = 0; j < nb; j++) if (blk[j] == k) w = pool + 500 + j; if (w != q || k <= last || k < L || k > H) { BAD("iteration over [%ld,%ld] gives key %ld", L, H, k); break; } last = k; if (++n > 40) break; } if (!q && n != want) BAD("iteration over [%ld,%ld] visits %d of %d", L, H, n, want); IntMapIterFree(it); } } }
  for (j = 0; j < 6; j++) if (IntMapGetVal(m, ks[j]) != val[j]) BAD("value of %ld wrong at the end", ks[j]); for (j = 0; j < nb; j++) if (IntMapGetVal(m, blk[j]) != pool + 500 + j) BAD("value of %ld lost", blk[j]);
  IntMapFree(m); }
/* heaps with index notification */
typedef struct { long w; int idx; } HE; static HE he[MAXK]; static int hcmp(IntOrP *a, IntOrP *b) { long x = ((HE *)a->p_val)->w, y = ((HE *)b->p_val)->w; return x < y ? -1 : x > y; } static void hset(void *p, int i) { ((HE *)p)->idx = i; }
static void t_heap(void) { MinHeap_p h = MinHeapAllocWithIndex(hcmp, hset); int n0 = P, i, j; for (i = 0; i < MAXK; i++) { he[i].idx = -1; he[i].w = 0; } reset(); int perm = 0;
  for (i = 0; i < n0; i++) { int c = choose(n0 - i), x; for (x = 0;; x++) if (!(perm >> x & 1)) { if (c-- == 0) break; } perm |= 1 << x; he[x].w = 10 * x; MinHeapAddP(h, &he[x]); pres[x] = 1; vh_note("add %d;", x); }
  for (i = 0; i <= D; i++) { if (isnew()) { vh_states++; if (MinHeapSize(h) != cnt()) BAD("heap size"); for (j = 0; j < K; j++) { if (!pres[j] && he[j].idx != -1) BAD("removed element has index %d", he[j].idx); if (pres[j] && (he[j].idx < 0 || he[j].idx >= MinHeapSize(h) || PStackElementP(h->arr, he[j].idx) != &he[j])) BAD("element %d has index %d", j, he[j].idx); } }
    if (i == D) break; int c = choose(7 * K), op = c / K, k = c % K; vh_trans++; vh_note("op%d %d;", op, k);
    switch (op) {
    case 0: if (!pres[k]) { he[k].w = 10 * k + 5; MinHeapAddP(h, &he[k]); pres[k] = 1; } break;
    case 1: if (k == 0 && cnt()) { HE *e = MinHeapPopMinP(h); if (!pres[e - he]) BAD("popped element not stored"); pres[e - he] = 0; for (j = 0; j < K; j++) if (pres[j] && he[j].w < e->w) BAD("popped %ld although %ld is stored", e->w, he[j].w); } break;
    case 2: if (pres[k]) { MinHeapRemoveElement(h, he[k].idx); pres[k] = 0; } break;
    case 3: if (pres[k]) { he[k].w = 100 - he[k].w; MinHeapUpdateElement(h, he[k].idx); } break;
    case 4: if (pres[k]) { he[k].w -= 25; MinHeapDecrKey(h, he[k].idx); } break;
    case 5: if (pres[k]) { he[k].w += 25; MinHeapIncrKey(h, he[k].idx); } break;
    case 6: if (pres[k]) { he[k].w = 20; MinHeapUpdateElement(h, he[k].idx); } break; } }
  long last = -1000000; while (MinHeapSize(h)) { HE *e = MinHeapPopMinP(h); if (e->w < last) { BAD("elements leave the heap as %ld after %ld", e->w, last); break; } last = e->w; if (!pres[e - he]) BAD("element leaves twice"); pres[e - he] = 0; } if (cnt()) BAD("elements lost"); MinHeapFree(h); }
static void t_dstr(void) { DStr_p d = DStrAlloc(); char ref[4096]; int n = 0, i; ref[0] = 0; static char big[300]; memset(big, 'z', 299); int pre = choose(4); static const int pl[] = {0, 62, 63, 64}; for (i = 0; i < pl[pre]; i++) { DStrAppendChar(d, 'a' + i % 26); ref[n++] = 'a' + i % 26; } ref[n] = 0; char *arr[] = {"u", "v", "", "w", NULL};
  for (i = 0; i < D; i++) { int op = choose(10); char *s = NULL; vh_trans++; vh_note("op%d;", op);
    switch (op) {
    case 0: s = DStrAppendStr(d, "xy"); strcpy(ref + n, "xy"); n += 2; break;
    case 1: s = DStrAppendStr(d, i & 1 ? "" : big + 299 - 65); { const char *q = i & 1 ? "" : big + 299 - 65; strcpy(ref + n, q); n += strlen(q); } break;
    case 2: s = DStrAppendChar(d, 'c'); ref[n++] = 'c'; ref[n] = 0; break;
    case 3: s = DStrAppendInt(d, i ? -120L * i : 0); n += sprintf(ref + n, "%ld", i ? -120L * i : 0); break;
    case 4: s = DStrAppendBuffer(d, "buffer", 3); strcpy(ref + n, "buf"); n += 3; break;
    case 5: { char c = DStrDeleteLastChar(d), e = n ? ref[n - 1] : 0; if (c != e) BAD("deleted char %d instead of %d", c, e); if (n) ref[--n] = 0; } break;
    case 6: DStrReset(d); n = 0; ref[0] = 0; break;
    case 7: DStrMinimize(d); break;
    case 8: s = DStrAppendStrArray(d, arr, ", "); strcpy(ref + n, "u, v, , w"); n += 9; break;
    case 9: s = DStrSet(d, "set"); strcpy(ref, "set"); n = 3; break; }
    if (s && strcmp(s, ref)) BAD("returned %.80s instead of %.80s", s, ref);
    if (isnew()) { vh_states++; if (DStrLen(d) != n || strcmp(DStrView(d), ref)) BAD("string is %.100s instead of %.100s", DStrView(d), ref); if (DStrLastChar(d) != (n ? ref[n - 1] : 0)) BAD("last char"); char *c = DStrCopy(d); if (strcmp(c, ref)) BAD("copy"); FREE(c); if (n >= 2) { c = DStrCopyCore(d); if (strlen(c) != n - 2 || strncmp(c, ref + 1, n - 2)) BAD("core copy"); FREE(c); } } }
  DStrFree(d); }
static void t_dstack(void) { DStack_p s = DStackAlloc(); int n = 0, i, j, pre = choose(3); static const int pl[] = {0, 31, 63}; double ref[200]; for (i = 0; i < pl[pre]; i++) { DStackPush(s, i * 0.5); ref[n++] = i * 0.5; }
  for (i = 0; i < D; i++) { int op = choose(4); vh_trans++; vh_note("op%d;", op); switch (op) { case 0: case 1: DStackPush(s, op * 3.5 + i); ref[n++] = op * 3.5 + i; break; case 2: if (n && DStackPop(s) != ref[--n]) BAD("pop"); break; case 3: if (n >= 2 && (DStackTop(s) != ref[n - 1] || DStackBelowTop(s) != ref[n - 2])) BAD("top"); break; }
    if (isnew()) { vh_states++; if (DStackGetSP(s) != n || DStackEmpty(s) != (n == 0)) BAD("size"); else for (j = 0; j < n; j++) if (DStackElement(s, j) != ref[j]) { BAD("element"); break; } } }
  DStackFree(s); }
int main(int argc, char **argv) { vh_init(argc, argv); kind = vh_arg("--what"); D = atoi(vh_arg("--depth")); K = vh_arg("--keys") ? atoi(vh_arg("--keys")) : 4; P = vh_arg("--perm") ? atoi(vh_arg("--perm")) : 0; int pre = vh_arg("--split") ? atoi(vh_arg("--split")) : 0;
  static struct { const char *n; void (*f)(void); } T[] = {{"ptree", t_ptree}, {"psets", t_psets}, {"objtree", t_obj}, {"objmap", t_map}, {"numtree", t_num}, {"numxtree", t_numx}, {"strtree", t_str}, {"floattree", t_float}, {"quadtree", t_quad}, {"queue", t_queue}, {"stack", t_stack}, {"search", t_search}, {"list", t_list}, {"array", t_array}, {"range", t_range}, {"intmap", t_intmap}, {"heap", t_heap}, {"dstr", t_dstr}, {"dstack", t_dstack}, {NULL, NULL}};
  int i; for (i = 0; T[i].n && strcmp(T[i].n, kind); i++); if (!T[i].n) return 9; void (*f)(void) = T[i].f;
  while (vh_next()) { int s = choose(pre ? pre : 1); (void)s; reset(); step = 0; f(); vh_outcome(vh_hs(vh_note_buf)); }
  return vh_done(); }
