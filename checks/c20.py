LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; tmp = ctx.tmp(); ctx.build('fo'); ctx.build('asan'); exe, ax = ctx.cc('fo', 'sched.c'), ctx.cc('asan', 'sched.c'); n = 24
    R = lambda e, l, a: ctx.run([[e, '--shard', '%d/%d' % (i, n), '--scratch', tmp, *a.split()] for i in range(n)], label=l + ' ' + a)
    S = 'strategy schedule'; B = 'batch of provers'
    if t: plan = [(exe, S, '--n 2 --b 11 --ev 9'), (exe, S, '--n 2 --b 11 --ev 6 --term 1'), (exe, S, '--n 3 --b 6 --ev 7'), (exe, S, '--n 3 --b 3 --ev 6 --term 1'), (exe, S, '--n 4 --b 3 --ev 5'), (ax, S, '--n 2 --b 6 --ev 5 --term 1'), (exe, B, '--n 3 --b 4 --ev 7 --batch 1'), (exe, B, '--n 3 --b 11 --ev 2 --batch 1'), (ax, B, '--n 2 --b 4 --ev 3 --batch 1')]
    else: plan = [(exe, S, '--n 2 --b 11 --ev 6'), (exe, S, '--n 2 --b 5 --ev 5 --term 1'), (exe, S, '--n 3 --b 4 --ev 5'), (ax, S, '--n 2 --b 4 --ev 3 --term 1'), (exe, B, '--n 2 --b 4 --ev 5 --batch 1'), (exe, B, '--n 2 --b 11 --ev 1 --batch 1'), (ax, B, '--n 1 --b 4 --ev 2 --batch 1')]
    for e, l, a in plan: R(e, l + (' under the address checker' if e is ax else ''), a)
    ctx.extra['rule'] = 'state = behaviours of the strategy processes (11 kinds: success with whole or split status line, failure, crash, time limit, long output) x core limits x history of events; transition = one event: a process writes its next piece, ends or is killed, the scheduler looks, waits in vain or gets SIGTERM; the first ev events are enumerated exhaustively, the rest runs in a fixed order; scheduler and processes are the real code, stopped at select()'
    ctx.assume.append('processes act only at the select() of the scheduler; the clock is virtual in batch mode')
