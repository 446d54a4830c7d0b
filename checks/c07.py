LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo'); exe = ctx.cc('fo', 'order.c'); n = 16
    plan = ['0012 4 3', '011 6 4', '02 5 3', '013 5 3', '0022 3 3', '1110 4 3'] if not ctx.thorough else ['0012 5 4', '0112 5 3', '011 7 5', '02 7 4', '013 5 3', '0022 5 3', '1110 5 4', '00112 4 3']
    for p in plan:
        s, w, b = p.split()
        ctx.run([[exe, '--shard', '%d/%d' % (i, n), '--sig', s, '--w', w, '--bw', b] for i in range(n)], label='signature with arities %s, terms of size <= %s' % (s, w))
    ctx.extra['rule'] = 'state = one ordering (type, precedence, weights, representation); transition = one comparison by the real code; ordering axioms checked on all pairs and triples of terms'
