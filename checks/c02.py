import verdict
LEVEL = 'model_checking'
def run(ctx):
    if ctx.thorough: verdict.go(ctx, [('minimal unsatisfiable cores, all configurations', '--mode cores --rot 1'), ('all subsets of up to 4 clauses of the function-free pools', '--mode subsets --k 4 --rot 5 --pool epr'), ('all subsets of up to 3 clauses', '--mode subsets --k 3 --rot 5')])
    else: verdict.go(ctx, [('minimal unsatisfiable cores', '--mode cores --rot 3'), ('all subsets of up to 3 clauses of the function-free pool', '--mode subsets --k 3 --rot 15 --pool epr')])
