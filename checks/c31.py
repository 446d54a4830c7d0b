LEVEL = 'model_checking'
OPTS = ['', '--auto', '-tLPO4 -WSelectMaxLComplexAvoidPosPred', '-tKBO6 --split-clauses=7 --definitional-cnf=1 --satcheck-proc-interval=1 --satcheck=ConjMinMinFreq', '--forward-context-sr --strong-destructive-er --destructive-er --simul-paramod --presat-simplify',
        '--pred-elim=true --bce=true', '--fp-index=NoIndex --free-numbers', '--auto-schedule --cpu-limit=10']
def run(ctx):
    t = ctx.thorough; ctx.build('fo', 'eprover'); exe = ctx.cc(None, 'typ.cpp'); n = 32; p = ctx.prog('fo', 'eprover'); sc = ctx.tmp()
    R = lambda l, *a: ctx.run([[exe, '--exe', p, '--scratch', sc, '--shard', '%d/%d' % (i, n), *a] for i in range(n)], label=l)
    R('one literal under every set of declarations', '--mode', 'lit', '--thin', '1' if t else '11')
    R('declarations and uses in every order', '--mode', 'seq', '--k', '4' if t else '3')
    R('scopes', '--mode', 'scope')
    for o in (OPTS if t else OPTS[:6]):
        R('verdicts ' + o, '--mode', 'sat', '--k', '4' if t else '3', '--opts', o, '--thin', '1' if t or not o else '4')
    ctx.extra['rule'] = ('state = typed problem: 300 declaration sets x 5 quantifier prefixes x every literal over 8 terms; every sequence of %d statements of 18; every scope nesting of one name; '
        'every subset of up to %d of 20 well-typed formulas; transition = a run of the real prover; oracle = separate type checker and enumeration of all interpretations with up to 3 elements per sort') % (4 if t else 3, 4 if t else 3)
    ctx.assume += ['symbols with the same name and different numbers of arguments are different symbols', 'a symbol without declaration takes its argument types from its first use and has result $i or $o',
                   'a type name need not be declared', 'two sorts besides $i, no arithmetic, no polymorphism, no formulas as arguments']
