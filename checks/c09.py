LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'unify.c')
    n = 32
    plan = ['--w 6 --h3 1', '--w 7 --h3 1 --sorted 1', '--w 8'] if ctx.thorough else ['--w 5 --h3 1', '--w 6', '--w 6 --sorted 1']
    if ctx.thorough: plan[-1] = '--w 7'
    for p in plan: ctx.run([[exe, '--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label='terms ' + p)
    ctx.extra['rule'] = 'state = first term; transition = one pair of terms in one of 5 initial binding states, unified and matched by the real code and compared with Robinson unification on reference terms'
