LEVEL = 'model_checking'
OPTS = ['', '--auto', '--split-clauses=7 --split-method=2', '--definitional-cnf=2 --forward-context-sr --condense', '-tLPO4 -WSelectMaxLComplexAvoidPosPred', '--simul-paramod --destructive-er --presat-simplify',
        '--satcheck-proc-interval=1 --satcheck=ConjMinMinFreq', '--pred-elim=true --bce=true', '--pred-elim=true --pred-elim-recognize-gates=true --pred-elim-max-occs=0', '--goal-defs=All -F1 --strong-destructive-er',
        '-tKBO6 -WPSelectComplexExceptUniqMaxHorn --backward-context-sr --split-clauses=4 --split-reuse-defs', '--fp-index=NoIndex --disequality-decomposition=4 --ac-handling=None', '-xFIFO --supersimul-paramod --prefer-general-demodulators', '--no-preprocessing --literal-comparison=TFOEqMax -WNoSelection']
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover'); exe = ctx.cc(None, 'ans.cpp'); n = 16; p = ctx.prog('fo', 'eprover'); sc = ctx.tmp()
    R = lambda l, *a: ctx.run([[exe, '--exe', p, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    for i, o in enumerate(OPTS):
        R('questions ' + o, '--k', '4' if t else '3', '--role', 'question', '--opts', o, '--thin', '1' if t or not i else '6')
    R('conjectures as questions', '--k', '3', '--role', 'conjecture', '--opts', '', '--thin', '1' if t else '4')
    ctx.extra['rule'] = ('state = question (13 forms with 1 to 3 answer variables) with every set of up to %d of 16 axioms; transition = one run of the real prover under one of %d option sets%s; '
        'oracle = for every printed answer the axioms and the negated instance of the question have no model with 1, 2 or 3 elements (free variables of an answer are universal, Skolem terms existential), number of parts and limit, status as for the plain conjecture') % (4 if t else 3, len(OPTS), '' if t else ' (all but the first on a sixth of the problems)')
    ctx.assume += ['an answer is refuted by models with up to three elements only', 'a Skolem term in an answer stands for some element']
