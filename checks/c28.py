LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover'); ctx.build('sys', 'eprover')
    so = ctx.cc(None, 'det.c', out='det.so', flags=['-shared', '-fPIC', '-O2'])
    exe = ctx.cc(None, 'same.cpp'); n = 32; sc = ctx.tmp()
    import os
    cores = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'cores.txt')
    rot = '41' if t else '307'
    ctx.run([[exe, '--exe', ctx.prog('fo', 'eprover'), '--sys', ctx.prog('sys', 'eprover'), '--preload', so, '--cores', cores, '--rot', rot, '--scratch', sc, '--shard', '%d/%d' % (i, n)] for i in range(n)], label='same problem, different circumstances')
    ctx.extra['rule'] = ('state = problem (clause cores, stride %s) with an option set; transition = one run of the real prover under each of the enumerated circumstances (contents of fresh memory, environment, working directory, file / standard input / include, output file); oracle = the complete output, without times and resource figures, equals that of the first run') % rot
    ctx.assume += ['addresses are handed out in order by a preloaded allocator: E orders some sets by address, so the property is stated for one order of addresses', 'strategy schedules are excluded']
