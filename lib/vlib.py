"""Driver shared by all checks: building, running explorers in parallel, replaying, evidence, verdict."""
import os, sys, json, time, subprocess, shutil, threading, queue, hashlib, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
LIBS = 'CONTROL HEURISTICS LEARN PCL2 PROPOSITIONAL CLAUSES ORDERINGS TERMS INOUT BASICS CONTRIB'.split()
NCPU = min(8, os.cpu_count() or 8)

class CheckError(Exception): pass

class Ctx:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.limit = 3600 * 3 if self.thorough else 760     # everything must end before this
        self.cov = dict(states=0, transitions=0, evaluations=0, distinct_nontrivial=0, samples=[], parts=[])
        self.assume, self.viol, self.capped, self.extra = [], [], False, {}
        self.scratch = None
        self.known = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if k['property'] == pid]
        self.known_hit = {}
    # ---- building
    def build(self, variant, *progs):
        env = dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=BUILD)
        r = subprocess.run(['bash', os.path.join(ROOT, 'lib/build.sh'), variant, *progs], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError('build of %s failed:\n%s' % (variant, r.stdout[-3000:]))
        return os.path.join(BUILD, variant)
    def prog(self, variant, name): return os.path.join(BUILD, variant, 'PROVER', name)
    def cc(self, variant, src, out=None, libs=LIBS, flags=(), ldflags=(), shim=None):
        """compile harness/src against the libraries of a variant (variant None: stand-alone)"""
        out = out or os.path.splitext(src)[0]
        os.makedirs(os.path.join(BUILD, 'h'), exist_ok=True)
        exe = os.path.join(BUILD, 'h', '%s-%s' % (out, variant or 'x'))
        sp = os.path.join(ROOT, 'harness', src)
        cxx = src.endswith('.cpp')
        if shim:   # a C part of a C++ harness
            flags = list(flags) + [self.cc(variant, shim, out='%s-%s.o' % (out, os.path.splitext(shim)[0]), flags=['-c'], libs=None)]
        cmd = ['g++', '-std=c++17', '-O2'] if cxx else ['gcc', '-std=gnu99', '-O1', '-g', '-fno-common']
        cmd += ['-Wno-unused-function', '-w', '-I', os.path.join(ROOT, 'harness')]
        if variant:
            d = os.path.join(BUILD, variant)
            cmd += ['-I', os.path.join(d, 'include'), '-DNDEBUG', '-DFAST_EXIT']
            cmd += self.defines(d)
            if variant.startswith('ho'): cmd.append('-DENABLE_LFHO')
            if 'asan' in variant: cmd += ['-fsanitize=address', '-fno-omit-frame-pointer']
            if 'asan' in variant or variant == 'sys': cmd.append('-DUSE_SYSTEM_MEM')
        cmd += [sp] + list(flags) + ['-o', exe]
        if variant and libs:
            ls = [os.path.join(BUILD, variant, 'lib', l + '.a') for l in libs]
            cmd += ['-Wl,--start-group', *ls, '-Wl,--end-group', '-lm'] + list(ldflags)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise CheckError('compiling %s failed:\n%s' % (src, r.stdout[-3000:]))
        return exe
    def defines(self, d):
        """the -D flags the project's makefiles pass (BUILDFLAGS of Makefile.vars)"""
        r = subprocess.run(['make', '-s', '-f', 'Makefile.vars', '-f', '-', 'vh-print'], cwd=d, input='vh-print:\n\t@echo $(BUILDFLAGS)\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return [w for w in r.stdout.split() if w.startswith('-D')]
    def tmp(self):
        if not self.scratch:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
            self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % self.pid, dir=base)
        return self.scratch
    # ---- running
    def left(self): return self.limit - (time.time() - self.t0)
    def run(self, tasks, deadline=None, env=None, label=None):
        """tasks: list of argv lists (explorers speaking the vh.h protocol); runs them on all cores.
        Returns aggregated dict.  Violations are collected (and later replayed)."""
        q = queue.Queue(); out = []; lock = threading.Lock()
        for t in tasks: q.put(t)
        dl = deadline or max(20, self.left() - 60)
        e = dict(os.environ, **(env or {}))
        agg = dict(execs=0, states=0, trans=0, distinct=0, capped=0, stats={}, samples=[])
        def work():
            while True:
                try: t = q.get_nowait()
                except queue.Empty: return
                rem = max(5, min(dl, self.left() - 40))
                cmd = list(t) + ['--tier', self.tier, '--deadline', str(int(rem))]
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=rem + 150)
                    so, rc = p.stdout, p.returncode; se = p.stderr
                except subprocess.TimeoutExpired as x:
                    so, rc, se = x.stdout or b'', 'timeout', b''
                with lock: self._collect(t, so, se, rc, agg, e)
        th = [threading.Thread(target=work) for _ in range(min(NCPU, len(tasks)))]
        for x in th: x.start()
        for x in th: x.join()
        c = self.cov
        c['evaluations'] += agg['execs']; c['states'] += agg['states']; c['transitions'] += agg['trans']; c['distinct_nontrivial'] += agg['distinct']
        c['parts'].append(dict(part=label or os.path.basename(tasks[0][0]), executions=agg['execs'], states=agg['states'], transitions=agg['trans'], distinct_observations=agg['distinct'], complete=not agg['capped'], **agg['stats']))
        for s in agg['samples'][:3]: c['samples'].append(s)
        if agg['capped']: self.capped = True
        return agg
    def _collect(self, task, so, se, rc, agg, env):
        ended = False; nv = 0
        for line in so.decode('utf-8', 'replace').split('\n'):
            if not line.startswith('{'): continue
            try: o = json.loads(line)
            except ValueError: continue
            if o['t'] == 'viol': nv += 1; self.viol.append(dict(task=task, env=None, **o))
            elif o['t'] == 'stat': agg['stats'][o['name']] = agg['stats'].get(o['name'], 0) + o['v']
            elif o['t'] == 'sample': agg['samples'].append(o['note'][:600])
            elif o['t'] == 'end':
                ended = True
                agg['execs'] += o['execs']; agg['states'] += o['states']; agg['trans'] += o['trans']; agg['distinct'] += o['distinct']; agg['capped'] |= o['capped']
        if not ended and nv == 0:
            if rc == 'timeout': raise CheckError('explorer timed out: %s' % ' '.join(task))
            self.viol.append(dict(task=task, env=None, key='crash', msg='explorer ended with status %s: %s' % (rc, se.decode('utf-8', 'replace')[-1500:]), note='', choices=None))
    def violation(self, key, msg, note='', task=None, choices=None):
        """a violation found by Python code"""
        self.viol.append(dict(task=task, key=key, msg=msg, note=note, choices=choices, t='viol', direct=True))
    # ---- verdict
    def replay(self, v):
        """run the one execution again, alone; true if it fails again"""
        if v.get('direct') or v.get('choices') is None: return True
        cmd = list(v['task']) + ['--tier', self.tier, '--replay', v['choices'], '--hang', '120']
        cmd = [x for i, x in enumerate(cmd) if x != '--shard' and (i == 0 or cmd[i - 1] != '--shard')]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=180)
        except subprocess.TimeoutExpired: return True
        s = p.stdout.decode('utf-8', 'replace')
        if '"t":"viol"' in s or '"t":"end"' not in s: return True
        # state carried over from earlier executions of the same process: repeat the whole exploration
        self.repeats = getattr(self, 'repeats', 0) + 1
        rem = min(300, self.left() - 20)
        if rem < 10 or self.repeats > 3: return False
        try: p = subprocess.run(list(v['task']) + ['--tier', self.tier, '--deadline', str(int(rem))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=rem + 20)
        except subprocess.TimeoutExpired: return False
        for line in p.stdout.decode('utf-8', 'replace').split('\n'):
            if '"t":"viol"' in line:
                o = json.loads(line)
                if o['key'] == v['key'] and o['choices'] == v['choices']: return True
        return False
    def finish(self):
        if self.scratch: shutil.rmtree(self.scratch, ignore_errors=True)
        real, unrep, seen = [], [], {}
        for v in self.viol:
            k = self._known(v)
            if k: self.known_hit[k['id']] = k; continue
            if seen.get(v['key'], 0) >= (1 if v['key'] == 'hang' else 3): continue
            if real and time.time() - self.t0 > 300: continue
            if self.replay(v): seen[v['key']] = seen.get(v['key'], 0) + 1; real.append(v)
            else:
                unrep.append(v)
        for v in unrep: print('NOTE: not reproduced when run alone, ignored: %s %s' % (v['key'], v['msg'][:300]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, wall_s=round(time.time() - self.t0, 2), violations=len(real), assumptions=self.assume)
        c = self.cov
        c.setdefault('rule', '')
        c['exhaustive'] = not self.capped
        c.update(self.extra)
        if self.level == 'model_checking': c.setdefault('traces_validated_against_impl', c['evaluations'])
        ev['coverage'] = c
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known_hit.values(): print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s: %s tier, %d executions, %d states, %d transitions, %d distinct observations, %s, %.1fs' % (self.pid, self.tier, c['evaluations'], c['states'], c['transitions'], c['distinct_nontrivial'], 'complete within bounds' if not self.capped else 'CAPPED', ev['wall_s']))
        if real:
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            for n, v in enumerate(real[:10]):
                path = os.path.join(ROOT, 'replays', '%s-%d.json' % (self.pid, n))
                cmd = None
                if v.get('task') and v.get('choices') is not None: cmd = ' '.join(v['task']) + ' --tier %s --show 1 --replay %s' % (self.tier, v['choices'])
                with open(path, 'w') as f: json.dump(dict(property=self.pid, key=v['key'], message=v['msg'], execution=v.get('note'), choices=v.get('choices'), command=cmd), f, indent=1)
                print('  [%s] %s' % (v['key'], v['msg'][:1500])); 
                if v.get('note'): print('  execution: ' + v['note'][:1500])
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0
    def _known(self, v):
        for k in self.known:
            if k.get('status') == 'fixed': continue
            if k['key'] == v['key'] and (k.get('match', '') in (v['msg'] + ' ' + (v.get('note') or ''))): return k
        return None
