import os
LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover', 'e_axfilter'); exe = ctx.cc(None, 'axf.cpp'); n = 32; d = os.path.dirname(ctx.prog('fo', 'eprover')); sc = ctx.tmp(); b = ['--big', '1'] if t else []
    R = lambda l, *a: ctx.run([[exe, '--dir', d, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a, *b] for i in range(n)], label=l)
    R('selection', '--mode', 'sine')
    R('artificial seeds', '--mode', 'seed')
    R('prover with a filter', '--mode', 'prover')
    ctx.extra['rule'] = ('state = every subset of up to %d formulas of a pool of %d (axioms, hypotheses, formulas without symbols) with 7 choices of goals; transition = the real filter program with a grid of filters '
        '(2 measures, hypotheses, benevolence, generosity, depth, size, fraction, formulas without symbols%s), 11 ways of artificial seeding, and the prover with 32 filters; oracle = reference selection by rounds, so the order inside one round is free') % (6 if t else 5, 12 if t else 10, '' if t else ', at most two parameters away from their defaults, each problem with a third of the filters')
    ctx.assume += ['formulas without symbols are added on top of the size limit', 'for artificial seeds from the largest axiom any axiom with the symbol is accepted']
