LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'subs.c'); n = 32
    plan = ['pred 3 4', 'eq 3 4', 'mix 3 4', 'big 3 3', 'unit 1 1'] if not ctx.thorough else ['pred 4 4', 'eq 4 4', 'mix 4 4', 'big 3 3', 'unit 1 1']
    for p in plan:
        pool, c, d = p.split(); ctx.run([[exe, '--shard', '%d/%d' % (i, n), '--pool', pool, '--c', c, '--d', d, '--cond', '1'] for i in range(n)], label='literals of pool %s, up to %s against up to %s literals' % (pool, c, d))
    ctx.extra['rule'] = 'state = subsuming clause; transition = one subsumption test (every rotation of its literals, with sides swapped) or condensation by the real code, compared with the definition by exhaustive matching'
