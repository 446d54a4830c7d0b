LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo', 'eprover')
    exe = ctx.cc(None, 'cnf.cpp')
    n = 32
    base = [exe, '--eprover', ctx.prog('fo', 'eprover'), '--scratch', ctx.tmp()]
    if ctx.thorough: plan = ['--n 2 --nb 8 --pats 0,1,2,3,4,5 --opts 0,1,2,3,4,5', '--n 3 --nb 8 --pats 0,1,2,3,4,5 --opts 0,1,3,4', '--n 4 --nb 4 --pats 0,1,3 --opts 0,1,4', '--mode pair --opts 0,1,2,3,4,5', '--mode ctx --n 2 --pats 0,1,2,3 --opts 0,1,5', '--mode share --opts 0,1,2,3,4,5', '--mode chain --opts 0,1,2,4', '--n 5 --nb 2 --pats 0 --opts 0']
    else: plan = ['--n 1 --nb 8 --pats 0,1,2,3,4,5 --opts 0,1,3', '--n 2 --nb 8 --pats 0,1,2,3,4,5 --opts 0,1,4', '--n 3 --nb 5 --pats 1,3 --opts 0', '--n 3 --nb 4 --pats 0,2 --opts 1,4', '--mode pair --opts 0,1,4', '--mode ctx --n 1 --pats 0,1,2,3 --opts 1,5', '--mode ctx --n 2 --pats 0,1 --opts 1,5', '--n 4 --nb 2 --pats 0 --opts 0', '--mode chain --opts 0', '--mode share --opts 0,1,4']
    for p in plan:
        ctx.run([base + ['--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label='formulas ' + p)
    ctx.extra['rule'] = 'state = problem (every formula with n connectives/quantifiers over a leaf pattern, as axiom or conjecture; pairs of formulas sharing a subformula); transition = one clausification by the real prover; distinct = different printed clause sets'
    ctx.assume.append('models are compared on all domains of 1, 2 and (small formulas) 3 elements; checks that exceed their node budget are counted as undecided_checks')
