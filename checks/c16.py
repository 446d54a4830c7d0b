LEVEL = 'model_checking'
def run(ctx):
    t = ctx.thorough; ctx.build('fo'); n = 32
    exe = ctx.cc('fo', 'rt.cpp', shim='rt_shim.c')
    R = lambda l, *a: ctx.run([[exe, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    R('formulas with up to 1 node, all roles', '--mode', 'fof', '--n', '1', '--roles', '10')
    R('formulas with 2 nodes', '--mode', 'fof', '--n', '2', '--roles', '4' if t else '2')
    R('formulas with 3 nodes', '--mode', 'fof', '--n', '3', '--roles', '1', '--nb', '8' if t else '3', *([] if t else ['--pats', '1,4']))
    R('formulas with the fewest parentheses and with comments', '--mode', 'min', '--n', '4' if t else '3', *(['--pats', '1,4', '--nb', '6'] if t else []))
    R('clauses in three languages', '--mode', 'clause', '--k', '4' if t else '3')
    R('names', '--mode', 'name')
    R('identity of names', '--mode', 'ident')
    R('typed formulas', '--mode', 'tff', '--nb', '8' if t else '2')
    ctx.extra['rule'] = 'state = input text (every formula with n connectives over leaf patterns x role; every clause with k literals of a pool of 12 x role; every pair of 26 unusual names in 8 positions; every pair of 38 constants; typed formulas); transition = one reading and printing by the real parser and printers; distinct = different printed texts'
    ctx.assume.append('meaning is compared on all interpretations with 1 and 2 elements per sort')
