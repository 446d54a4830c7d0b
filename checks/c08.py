LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'mark.c'); n = 32
    for p in (['--n 2 --w 3 --pv 6', '--n 3 --w 2 --pv 20'] if not ctx.thorough else ['--n 2 --w 3', '--n 3 --w 2']):
        ctx.run([[exe, '--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label='clauses ' + p)
    ctx.extra['rule'] = 'state = ordering x literal comparison mode x first literal; transition = one clause marked by the real code (and its instances), compared with the two-fold multiset extension computed from the term comparison matrix'
