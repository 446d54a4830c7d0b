LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('sys', 'eprover'); exe = ctx.cc(None, 'strat.cpp'); det = ctx.cc(None, 'det.c', out='det.so', flags=['-shared', '-fPIC', '-O2']); n = 16; p = ctx.prog('sys', 'eprover'); sc = ctx.tmp()
    R = lambda l, *a: ctx.run([[exe, '--exe', p, '--preload', det, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    R('predefined strategies', '--mode', 'names', '--probs', '4')
    R('every parameter with every value in use', '--mode', 'values')
    R('options', '--mode', 'options')
    R('faulty descriptions', '--mode', 'bad')
    ctx.extra['rule'] = ('state = strategy description: every predefined strategy, the default with every value of every parameter that any predefined strategy uses (and both truth values, six numbers), the default under each of 73 options, '
        'every line dropped, misspelt, given a value of another kind, repeated, swapped, cut off; transition = a run of the real prover printing, parsing or using it on four problems up to 80 given clauses; '
        'oracle = the printed text comes back identical, the trace of all processed clauses is identical for the strategy and its description, faulty descriptions are refused; addresses are made deterministic by a preloaded allocator')
    ctx.assume += ['a missing parameter keeps its default', '--select-strategy and --parse-strategy override all other options', 'parameters that act before the search are compared by text only']
