LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover'); exe = ctx.cc(None, 'inc.cpp'); n = 32; p = ctx.prog('fo', 'eprover'); sc = ctx.tmp()
    R = lambda l, *a: ctx.run([[exe, '--exe', p, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    R('selections', '--mode', 'sel', '--k', '3' if t else '2')
    R('places', '--mode', 'path')
    R('ends of files', '--mode', 'end')
    ctx.extra['rule'] = ('state = tree of files (main, included, nested), selection lists of up to %d names over 6 names, with and without brackets, position and repetition of the directive; '
        '6 kinds of file name x 5 ways of naming the main file x TPTP variable x presence of the file in 4 places x 3 nested names; 17 file endings; transition = the real prover reading it') % (3 if t else 2)
    ctx.assume += ['reading is observed through the printed list of formulas', 'formula names are compared as written']
