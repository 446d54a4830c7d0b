/* rt_shim.c - reads a problem text with E's parser and prints it with E's printers (compiled as C against E's headers) */
#include <ccl_formulafunc.h>
#include <ccl_proofstate.h>
#include <cio_output.h>
#include <cio_tempfile.h>
#include <stdio.h>
bool app_encode = false; extern bool FormulasKeepInputNames;
/* fmt: 0 LOP, 1 old TPTP, 2 TSTP. mode bit0: print the type declarations too; bit1: print clauses through the clause printer only; bit2: keep names */
static IOFormat FM[] = { LOPFormat, TPTPFormat, TSTPFormat };
void rt_init(void) { InitIO("rt"); OutputLevel = 0; }
int rt_inproc = 0;
char *rt_run(const char *txt, int in_fmt, int out_fmt, int mode, long *count, int *atend)
{
   TypeBank_p types = TypeBankAlloc(); Sig_p sig = SigAlloc(types); SigInsertInternalCodes(sig); sig->distinct_props = FPIgnoreProps; TB_p tb = TBAlloc(sig);
   FormulaSet_p fs = FormulaSetAlloc(); ClauseSet_p ws = ClauseSetAlloc(); StrTree_p skip = NULL;
   FormulasKeepInputNames = (mode & 4) != 0; OutputFormat = FM[out_fmt];
   Scanner_p in = CreateScanner(StreamTypeUserString, (char *)txt, true, NULL, true); ScannerSetFormat(in, FM[in_fmt]);
   *count = FormulaAndClauseSetParse(in, fs, ws, tb, NULL, &skip); *atend = TestInpTok(in, NoToken) ? 1 : 0;
   DestroyScanner(in);
   char *buf = NULL; size_t len = 0; FILE *f = open_memstream(&buf, &len);
   if (mode & 1) SigPrintTypeDeclsTSTP(f, sig);
   for (WFormula_p w = fs->anchor->succ; w != fs->anchor; w = w->succ) {
      if ((mode & 2) && !w->is_clause) continue;
      if (out_fmt == 2 && !(mode & 2) && w->is_clause && (mode & 8)) WFormulaTSTPPrintFlex(f, w, true, true, true);
      else WFormulaPrint(f, w, true);
      fputc('\n', f); }
   for (Clause_p c = ws->anchor->succ; c != ws->anchor; c = c->succ) { ClausePrint(f, c, true); fputc('\n', f); }
   fclose(f);
   FormulaSetFree(fs); ClauseSetFree(ws); StrTreeFree(skip); tb->sig = NULL; TBFree(tb); SigFree(sig); TypeBankFree(types);
   return buf;
}

/* reads fof(n,axiom,q(S,T)) and tells whether both arguments are the same term for E */
int rt_same(const char *txt)
{
   TypeBank_p types = TypeBankAlloc(); Sig_p sig = SigAlloc(types); SigInsertInternalCodes(sig); sig->distinct_props = FPIgnoreProps; TB_p tb = TBAlloc(sig);
   FormulaSet_p fs = FormulaSetAlloc(); ClauseSet_p ws = ClauseSetAlloc(); StrTree_p skip = NULL;
   Scanner_p in = CreateScanner(StreamTypeUserString, (char *)txt, true, NULL, true); ScannerSetFormat(in, TSTPFormat);
   FormulaAndClauseSetParse(in, fs, ws, tb, NULL, &skip); DestroyScanner(in);
   Term_p t = fs->anchor->succ->tformula; while (t->arity == 2 && SigIsLogicalSymbol(sig, t->f_code)) t = t->args[0];
   int res = t->arity == 2 && t->args[0] == t->args[1];
   FormulaSetFree(fs); ClauseSetFree(ws); StrTreeFree(skip); tb->sig = NULL; TBFree(tb); SigFree(sig); TypeBankFree(types);
   return res;
}
