import os
LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover', 'epclextract', 'checkproof'); exe = ctx.cc(None, 'pcl.cpp'); n = 32; d = os.path.dirname(ctx.prog('fo', 'eprover')); sc = ctx.tmp()
    cores = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'cores.txt')
    R = lambda l, *a: ctx.run([[exe, '--dir', d, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    R('extraction, three steps', '--mode', 'extract', '--n', '3')
    R('extraction, four steps', '--mode', 'extract', '--n', '4', *([] if t else ['--lite', '1']))
    if t: R('extraction, five steps', '--mode', 'extract', '--n', '5')
    R('checking one step', '--mode', 'check', '--n', '11' if t else '9', '--rot', '1' if t else '2')
    R('prover, extraction, checker', '--mode', 'chain', '--cores', cores, '--rot', '1' if t else '16')
    ctx.extra['rule'] = ('state = protocol of 3 to %d steps: every graph of dependencies, marks (none, proof, final, lemma), 3 numbering schemes, 3 orders, in default, fast and keep-all modes; '
        'protocol of 3 premises from a pool of %d clauses and one inferred clause with 4 justifications; protocol of the prover for minimal unsatisfiable sets x configurations (every %s pair); transition = run of the real tool') % (5 if t else 4, 11 if t else 9, 'single' if t else '16th')
    ctx.assume += ['the checker verifies clause steps; formula steps are accepted by assumption, as documented in its output', 'fast mode assumes that the marked steps are the last ones (documented)', 'configurations with definition-introducing steps are left out of the chain', 'a step that follows is given 5 s']
