import verdict
LEVEL = 'model_checking'
def run(ctx):
    if ctx.thorough: verdict.go(ctx, [('all maximal satisfiable subsets of minimal unsatisfiable cores, all configurations', '--mode near --rot 1'), ('all subsets of up to 3 clauses', '--mode subsets --k 3 --rot 3')])
    else: verdict.go(ctx, [('maximal satisfiable subsets of minimal unsatisfiable cores', '--mode near --rot 17'), ('all subsets of up to 2 clauses', '--mode subsets --k 2 --rot 11')])
