LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover'); exe = ctx.cc(None, 'lim.cpp'); det = ctx.cc(None, 'det.c', out='det.so', flags=['-shared', '-fPIC', '-O2']); n = 32; p = ctx.prog('fo', 'eprover'); sc = ctx.tmp()
    R = lambda l, *a: ctx.run([[exe, '--exe', p, '--preload', det, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    R('limits', '--mode', 'limit')
    R('allocation failures', '--mode', 'mem', '--stride', '1' if t else '7')
    R('signals', '--mode', 'sig', '--stride', '1' if t else '29')
    ctx.extra['rule'] = ('state = problem (7, four provable, three with models) x 10 option sets x point of interruption: every value 0..39 of each of 4 clause limits, 40 and 60 values of the limits on generated clauses and term insertions; '
        '%s allocation of the run failing once or from there on; SIGXCPU with and without soft limit, SIGTERM, SIGINT at %s allocation; transition = a run of the real prover; oracle = known status of the problem, exit code table, no crash, no hang') % (('every', 'every') if t else ('every 7th', 'every 29th'))
    ctx.assume += ['signals arrive at allocations', 'a signal without handler (TERM, INT) ends the process', 'exit code 2 is accepted after a verdict if memory ran out while printing the proof']
