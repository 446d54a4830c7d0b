"""C01 and C02: verdicts of the real prover over enumerated problems x configurations (harness/verdict.cpp)."""
import os, vlib
def go(ctx, plan):
    ctx.build('fo', 'eprover')
    exe = ctx.cc(None, 'verdict.cpp')
    n = 32
    base = [exe, '--eprover', ctx.prog('fo', 'eprover'), '--scratch', ctx.tmp(), '--cores', os.path.join(vlib.ROOT, 'harness/cores.txt')]
    for label, p in plan:
        ctx.run([base + ['--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label=label)
    ctx.extra['rule'] = 'state = problem (subset of a clause pool, last clause as axiom or negated into a conjecture); transition = run of the prover under one configuration; configuration c runs on problem m if (m+c) mod rot = 0; distinct = status x configuration x pool x size'
    ctx.assume.append('countermodels are searched up to domain size 3 (function-free problems: complete decision); the unsatisfiability of the cores listed in harness/cores.txt was established with z3 when the list was made')
