import os
LEVEL = 'model_checking'
def run(ctx, what='proof'):
    ctx.build('fo', 'eprover')
    exe = ctx.cc(None, 'proofs.cpp')
    n = 64
    base = [exe, '--eprover', ctx.prog('fo', 'eprover'), '--scratch', ctx.tmp(), '--cores', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'cores.txt'), '--what', what]
    if what == 'proof':
        plan = ['--src cores --rot 16', '--src fof --n 2 --pats 0,1,2,3,4,5 --rot 3', '--src fof --n 3 --nb 4 --pats 0,1,3 --rot 5']
        if ctx.thorough: plan = ['--src cores --rot 1', '--src fof --n 2 --nb 8 --pats 0,1,2,3,4,5 --rot 1', '--src fof --n 3 --nb 8 --pats 0,1,2,3,4,5 --rot 2']
    else:
        plan = ['--src near --rot 307 --climit 12', '--src cores --rot 151 --climit 12', '--src fof --n 2 --pats 0,1,3 --rot 3 --climit 12']
        if ctx.thorough: plan = ['--src near --rot 7 --climit 25', '--src cores --rot 3 --climit 25', '--src fof --n 2 --nb 8 --pats 0,1,2,3,4,5 --rot 1 --climit 12']
    for p in plan:
        ctx.run([base + ['--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label=p)
    ctx.extra['rule'] = 'state = problem in one of its written forms; transition = one run of the real prover under one strategy, whose %s is read back and checked step by step on all interpretations with 1 and 2 elements; distinct = different derivations' % ('proof object' if what == 'proof' else 'full inference protocol (level 4)')
    ctx.assume.append('consequence is decided on all domains with 1 and 2 elements; steps whose text or search exceeds the budget are counted as undecided_checks')
