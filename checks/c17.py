LEVEL = 'model_checking'
PROGS = ['eprover', 'epclextract', 'e_axfilter', 'eground', 'checkproof', 'enormalizer', 'edpll']
def run(ctx):
    import os, subprocess
    ctx.build('asan', *PROGS)
    exe = ctx.cc(None, 'mut.cpp')
    sc = ctx.tmp()
    d = os.path.dirname(ctx.prog('asan', 'eprover'))
    p = os.path.join(sc, 'p.p'); open(p, 'w').write('fof(a,axiom,p(a)).\n')
    st = subprocess.run([d + '/eprover', '-s', '--print-strategy', p], capture_output=True, text=True,
                        env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).stdout
    st = ''.join(l + '\n' for l in st.splitlines() if not l.startswith('%'))
    if 'ordertype' not in st:
        st = '{}\n'
    sf = os.path.join(sc, 'strategy'); open(sf, 'w').write(st)
    def r(label, sets, kinds, rep=0, step=1, n=8):
        jobs = [[exe, '--dir', d, '--scratch', sc, '--strategy', sf, '--shard', '%d/%d' % (i, n), '--set', sets, '--kinds', kinds]
                + (['--rep', str(rep)] if rep else []) + (['--step', str(step)] if step > 1 else []) for i in range(n)]
        ctx.run(jobs, label=label)
    T = ctx.thorough
    fast = '0,1,2,3,4,5,6,7,9,10,12,13,14,15,17'
    r('every truncation, deletion, doubling, exchange and control byte', fast, '0,1,3,4,5,6,9')
    r('every replacement and insertion of one byte', fast, '2,7', 33 if T else 7)
    r('every short run deleted', fast, '8', 0, 1 if T else 2)
    r('deep nesting', fast, '11', 0, 1 if T else 5)
    r('search heuristics', '8', '0,1,2,3,4,6,7,9' if T else '0,1,3,4,6,9', 33 if T else 0)
    r('strategy files', '11', '0,1,3,4,9', 0, 5 if T else 41)
    if T:
        r('every part cut out', fast, '10')
    ctx.extra['rule'] = ('17 base inputs for 7 programs (TPTP-3 untyped, typed, numbers and distinct objects; old TPTP; LOP; PCL; axiom filters; includes; '
        'watch list; heuristic, weights and precedence options; strategy file; term files): every position x every kind of change; '
        'the real program runs on every text under the address checker')
    ctx.assume += ['a change is made at one position (or between two positions) of a base input',
                   'whether accepted text is meant to be valid is judged only by brackets, quotes, comments and the final full stop',
                   'first-order programs; exit status with a reported SZS status is not an error stop']
