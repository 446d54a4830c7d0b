/* eord.h - orderings built for the symbols fs[0..nf) */
static int fs[8], nf;
static OCB_p mkocb(TermOrdering ty, const int *prec, const int *wt, int vw, int matrix) { OCB_p o = OCBAlloc(ty, !matrix, sig, LFHO_ORDER); int i, j; long k; o->var_weight = vw; if (o->weights) for (k = 1; k <= o->sig_size; k++) *OCBFunWeightPos(o, k) = 1;
  if (!matrix) for (k = 1; k <= o->sig_size; k++) o->prec_weights[k] = k; 
  for (i = 0; i < nf; i++) { FunCode f = rsym[fs[i]].code; if (o->weights) *OCBFunWeightPos(o, f) = wt[i]; if (!matrix) o->prec_weights[f] = 1000 + prec[i]; else for (j = 0; j < nf; j++) if (prec[i] > prec[j]) OCBPrecedenceAddTuple(o, f, rsym[fs[j]].code, to_greater); }
  return o; }
static CompareResult inv(CompareResult r) { return r == to_greater ? to_lesser : r == to_lesser ? to_greater : r; }
static const char *nm(CompareResult r) { return r == to_greater ? ">" : r == to_lesser ? "<" : r == to_equal ? "=" : r == to_uncomparable ? "?" : "(bad)"; }
