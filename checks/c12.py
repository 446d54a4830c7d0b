LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); ctx.build('asan'); exe = ctx.cc('fo', 'tbank.c'); ex2 = ctx.cc('asan', 'tbank.c'); n = 64
    k = 4 if ctx.thorough else 3
    for s in (0, 1, 2):
        ctx.run([[exe, '--shard', '%d/%d' % (i, n), '--k', str(k), '--set', str(s)] for i in range(n)], label='all sequences of up to %d store operations, term pool %d' % (k, s))
    for s in (0, 1, 2) if ctx.thorough else (1,):
        ctx.run([[ex2, '--shard', '%d/%d' % (i, n), '--k', '2', '--set', str(s)] for i in range(n)], label='all sequences of up to 2 store operations, term pool %d, address sanitizer' % s, env=dict(ASAN_OPTIONS='detect_leaks=0'))
    ctx.extra['rule'] = 'state = operation sequence (insert, parse, instantiate, replace, register/unregister clause, rewrite link, formula, collect) executed on a fresh term bank; after it every live term must be found at one reference with the right recorded data, and the store must hold exactly the reachable terms'
