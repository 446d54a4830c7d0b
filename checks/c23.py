import os, vlib
LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover', 'eground'); exe = ctx.cc(None, 'ground.cpp'); n = 32; sc = ctx.tmp()
    ctx.run([[exe, '--exe', ctx.prog('fo', 'eground'), '--scratch', sc, '--shard', '%d/%d' % (i, n), '--k', '5' if t else '4', '--rot', '1' if t else '2'] for i in range(n)], label='grounding tool')
    v = ctx.cc(None, 'verdict.cpp'); base = [v, '--eprover', ctx.prog('fo', 'eprover'), '--scratch', sc, '--cores', os.path.join(vlib.ROOT, 'harness/cores.txt'), '--cfgset', 'sat']
    for label, p in [('propositional check on minimal unsatisfiable sets', '--mode cores --rot %d' % (2 if t else 12)), ('propositional check on satisfiable sets', '--mode near --rot %d' % (2 if t else 29))]:
        ctx.run([base + ['--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label=label)
    ctx.extra['rule'] = ('state = every set of up to %d of 18 function-free clauses x 12 option sets of the grounding tool, in both output forms, decided by a separate propositional procedure on all ground instances; '
        'every minimal unsatisfiable set and every maximal satisfiable subset of the pools under 54 settings of the propositional check (9 groundings x 6; every n-th pair); transition = a run of the real program') % (5 if t else 4)
    ctx.assume += ['the grounding tool reads problems without equality (it asks for equality axioms otherwise)', 'with splitting only satisfiability is compared']
