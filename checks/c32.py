LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'checkproof', 'e_ltb_runner'); tmp = ctx.tmp(); n = 24
    so = ctx.cc(None, 'tf.c', out='tf.so', flags=['-shared', '-fPIC', '-O2'], ldflags=['-ldl']); exe = ctx.cc(None, 'tmpf.cpp')
    for prog, st in (('checkproof', 1), ('e_ltb_runner', 1 if t else 4)):
        ctx.run([[exe, '--prog', prog, '--exe', ctx.prog('fo', prog), '--preload', so, '--stride', str(st), '--scratch', tmp, '--shard', '%d/%d' % (i, n)] for i in range(n)], label='%s: every %s point' % (prog, '' if st == 1 else '%dth' % st))
    ds = ctx.cc('fo', 'deds.c')
    ctx.run([[ds, '--shard', '%d/%d' % (i, n), '--scratch', tmp, '--k', '3' if t else '2', '--a', '12', '--run', '1', '--tmp', '1'] for i in range(n)], label='sessions of the deduction server')
    ctx.extra['rule'] = 'state = program, behaviour of the prover it calls (3 stand-ins), kind of disturbance (SIGTERM, SIGINT, one failing call, all allocations failing from then on) and point (before and after every allocation and every call that creates, opens, closes or removes a file, starts or awaits a process, or waits); transition = one run of the real program with the disturbance at that point; oracle = the directory for temporary files is as before'
    ctx.assume += ['the prover called is a stand-in; waiting takes no time', 'removing a file fails at most once']
