LEVEL = 'model_checking'
FP = 'FP0 FPfp FP1 FP2 FP3D FP3W FP4D FP4W FP4M FP5M FP6M FP7 FP7M FP4X2_2 FP3DFlex NPDT'.split()
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'idx.c'); t = ctx.thorough
    def go(label, args, n): ctx.run([[exe, '--shard', '%d/%d' % (i, n)] + a.split() for a in args for i in range(n)], label=label)
    go('perfect discrimination tree, 3 of 27 units', ['--mode pdt --m 3 --k %d' % (5 if t else 4), '--mode pdt --m 3 --k 3 --ages 1', '--mode pdt --m 2 --k %d --ages 1 --qw 4' % (6 if t else 5)], 32)
    go('feature vector index, 3 of 24 clauses, all feature sets', ['--mode fv --spec %d%s --m %d --k %d' % (s, e, 3 if t or not e else 2, 4 if t else 3) for s in range(9) for e in ('', ' --elim 1', ' --permfew 1', ' --elim 1 --permfew 1')], 8 if t else 2)
    go('fingerprint index, pairs of terms, all functions', ['--mode fp --index %s --qw %d --m 2 --k 3' % (f, 5 if t and f in ('FP7', 'NPDT', 'FP6M', 'FPfp') else 4) for f in FP], 8)
    go('backward rewriting index, 3 of 22 clauses', ['--mode rw --index %s --m 3 --k %d' % (f, 5 if t else 4 if f in ('FP6M', 'NPDT') else 3) for f in FP], 2)
    go('paramodulation indices, 3 of 21 clauses', ['--mode pm --index %s --m %d --k %d --pmtypes 5' % (f, 3 if t else 2, 3) for f in FP] + ['--mode pm --index FP7 --m 3 --k 3 --pmtypes 5'], 4)
    ctx.extra['rule'] = 'state = one history of insertions and deletions on one choice of items; transition = one entry or answer returned by the index, compared with direct matching, unification or subsumption on reference terms (paramodulants: with the search without index)'
