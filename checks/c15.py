LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'sel.c'); n = 32; T = ctx.thorough
    for p, cfgs in ((('--k 6 --v 8', 6), ('--k 7 --v 4', 6), ('--k 5 --v 4 --perm 5', 6)) if T else (('--k 5 --v 8', 6), ('--k 6 --v 3', 6), ('--k 3 --v 4 --perm 5', 6))):
        ctx.run([[exe, '--shard', '%d/%d' % (i, n), '--cfg', str(c), *p.split()] for c in range(cfgs) for i in range(n)], label='operation sequences %s under 6 mixes of queues' % p)
    ctx.extra['rule'] = 'state = operation sequence (insert a clause of one of 8 evaluations, select, remove, re-insert, orphan, re-evaluate, keep the best); after every operation each queue must offer the reference minimum and contain exactly the members; the sequence ends by draining the set'
