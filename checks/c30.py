LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'litsel.c'); n = 32
    for p in (['--n 3', '--n 4 --pool 12'] if not ctx.thorough else ['--n 4']):
        ctx.run([[exe, '--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label='clauses ' + p)
    ctx.extra['rule'] = 'state = selection strategy x ordering x first literal; transition = one clause given to the real selection code'
