import os, vlib
LEVEL = 'model_checking'
def run(ctx):
    ctx.build('fo', 'eprover'); exe = ctx.cc(None, 'pre.cpp'); n = 32
    base = [exe, '--eprover', ctx.prog('fo', 'eprover'), '--scratch', ctx.tmp(), '--cores', os.path.join(vlib.ROOT, 'harness/cores.txt')]
    plan = ['--mode base --k 4', '--mode cores', '--mode near --rot 2', '--mode subsets --k 3 --rot 2'] if ctx.thorough else ['--mode base --k 2', '--mode base --k 3 --rot 22', '--mode cores --rot 8', '--mode near --rot 88', '--mode subsets --k 2 --rot 22']
    for p in plan: ctx.run([base + ['--shard', '%d/%d' % (i, n), *p.split()] for i in range(n)], label='clause sets ' + p)
    ctx.extra['rule'] = 'state = clause set (function-free definitions plus all subsets of a pool; minimal unsatisfiable sets and their maximal subsets; all small subsets of 18 pools), last clause as axiom or as negated conjecture; transition = preprocessing by the real prover under one of 11 option sets (every set on every problem unless --rot r is given: then every r-th); result compared by finite models with the input'
    ctx.assume.append('entailment is decided on domains of 1 and 2 elements; lost unsatisfiability by search for models of the result up to size 3 (function-free problems: complete)')
