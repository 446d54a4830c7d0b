LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'rw.c'); n = 48
    plan = ['--m 2 --k 4 --ord 0', '--m 2 --k 4 --ord 1 --general', '--m 2 --k 3 --ord 0 --strong', '--m 3 --k 3 --ord 0', '--m 2 --k 5 --ne 6 --ord 0'] if not ctx.thorough else ['--m 2 --k 6 --ord 0 --ne 8', '--m 2 --k 5 --ord 1 --general', '--m 2 --k 5 --ord 0 --strong', '--m 3 --k 4 --ord 0', '--m 4 --k 4 --ord 1 --ne 9']
    for p in plan:
        ctx.run([[exe, '--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label='histories ' + p)
    ctx.extra['rule'] = 'state = choice of m equations of a pool of 14 and a history of up to k operations (add/remove an equation, normalize half of the query terms at either level, normalize clauses, make clauses processed); transition = one normalization or backward search by the real code; every normal form must be irreducible with the present equations and reachable by decreasing steps with equations that were present, by direct reference matching'
    ctx.assume.append('the term ordering used by the reference is that of the code (checked by C07)')
