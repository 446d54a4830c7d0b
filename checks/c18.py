LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo'); ctx.build('asan'); n = 32; tmp = ctx.tmp()
    exe, ax = ctx.cc('fo', 'deds.c'), ctx.cc('asan', 'deds.c')
    R = lambda e, l, *a: ctx.run([[e, '--shard', '%d/%d' % (i, n), '--scratch', tmp, *a] for i in range(n)], label=l)
    R(exe, 'all sequences of commands', '--k', '5' if t else '4', '--a', '18')
    R(ax, 'all sequences of commands under the address checker', '--k', '4' if t else '3', '--a', '18')
    R(exe, 'all sequences of commands, then two jobs', '--k', '4' if t else '3', '--a', '12' , '--run', '1')
    ctx.extra['rule'] = 'state = named axiom sets with content and staged mark (reference model) after a command sequence; transition = one command handled by the real server loop over a socket: 18 commands on 3 names (uploads with two contents, server-side load, stage, unstage, remove, download, help, unknown); every answer, the final list, the contents and, for jobs, the problem handed to the prover (a recording stand-in) are compared with the model'
    ctx.assume.append('uploaded texts are well formed (a malformed text ends the session with an error)')
