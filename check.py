#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--unit NAME] [--verbose]

Decides one property: compiles the real sources of /repo to LLVM IR together with the contract
harness, generates proof obligations by symbolic execution and discharges them; a refuted
obligation is replayed natively against the same sources."""
import sys, os, json, time, re, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
REPO = '/repo'
for c in (PY, shutil.which('python3-vt') or ''):
    if c and os.path.exists(c):
        PY = c
        break
sys.path.insert(0, os.path.join(VERIF, 'props'))
import spec

INCS = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/external', '-I' + VERIF + '/irv/stub',
        '-I' + REPO + '/src/Platform/Linux', '-I' + VERIF + '/irv', '-I' + VERIF + '/props']
DEFS = ['-D_DEFAULT_SOURCE', '-D_GNU_SOURCE', '-DHAVE_ROTR', '-DNDEBUG']
CXX = ['clang++', '-std=gnu++11', '-maes', '-march=x86-64', '-O2', '-g1', '-w', '-fno-access-control', '-ffp-contract=off',
       '-Xclang', '-mno-constructor-aliases', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c',
       '-include', VERIF + '/irv/stub/noextern.h', '-fno-threadsafe-statics', '-fno-strict-aliasing']
CC = ['clang', '-std=gnu11', '-maes', '-march=x86-64', '-O2', '-g1', '-w', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes',
      '-emit-llvm', '-c', '-fno-strict-aliasing']


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def src(t):
    return t if t.startswith('/') else os.path.join(REPO, t)


class Check:
    def __init__(self, pid, tier, verbose=False, only=None):
        self.pid, self.tier, self.verbose, self.only = pid, tier, verbose, only
        self.p = spec.PROPS[pid]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='irv-%s-' % pid)
        self.rsyms = {}
        self.consts = {}
        self.log = []

    def elapsed(self):
        return time.time() - self.t0

    def say(self, *a):
        if self.verbose:
            print('[%6.1f]' % (time.time() - self.t0), *a, flush=True)

    # -- building ------------------------------------------------------------------------
    def units(self):
        us = [dict(u) for u in self.p['units'] if (self.tier == 'thorough' or not u.get('thorough'))]
        if self.only:
            us = [u for u in us if re.search(self.only, u['name'])]
        return us

    def compile_all(self, us):
        jobs = {}
        for u in us:
            d = tuple(u.get('defs', ()))
            h = os.path.join(VERIF, 'props', u['harness'])
            jobs[(h, d + ('-DIRV_SYMBOLIC',))] = None
            for t in u['tus']:
                jobs[(src(t), d)] = None
        for i, k in enumerate(jobs):
            jobs[k] = os.path.join(self.scratch, 'b%d.bc' % i)

        def one(k):
            s, d = k
            run((CC if s.endswith('.c') else CXX) + DEFS + INCS + list(d) + [s, '-o', jobs[k]])
        with ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(one, k) for k in jobs]:
                r.result()
        for u in us:
            d = tuple(u.get('defs', ()))
            h = os.path.join(VERIF, 'props', u['harness'])
            u['bc'] = [jobs[(h, d + ('-DIRV_SYMBOLIC',))]] + [jobs[(src(t), d)] for t in u['tus']]

    # -- verification --------------------------------------------------------------------
    def verify(self, us, tag='', opts=None):
        """run the workers; one per (unit, entry)"""
        tasks = []
        for u in us:
            for e in u['entries']:
                w = {k: v for k, v in u.items() if k not in ('native',)}
                w['entries'] = [e]
                if opts:
                    w['opts'] = dict(u.get('opts', {}), **opts)
                if self.tier == 'thorough':
                    w['budget'] = 3000
                    w['opts'] = dict(w.get('opts', {}))
                    w['opts'].setdefault('timeout', 60000)
                tasks.append((u, e, w))
        tasks.sort(key=lambda t: -t[0].get('cost', 1))

        def one(i):
            u, e, w = tasks[i]
            jf = os.path.join(self.scratch, 'u%s%d.json' % (tag, i))
            of = os.path.join(self.scratch, 'o%s%d.json' % (tag, i))
            with open(jf, 'w') as f:
                json.dump(w, f)
            b = w.get('budget', 500) + 120
            r = None
            try:
                pr = subprocess.run([PY, os.path.join(VERIF, 'irv', 'worker.py'), jf, of], capture_output=True, text=True, timeout=b)
                if self.verbose and w.get('opts', {}).get('verbose'):
                    print(pr.stdout)
                if os.path.exists(of):
                    r = json.load(open(of))
                    self.rsyms.setdefault(u['name'], {}).update(r.get('replaced') or {})
                    r = dict(r['entries'][0], unused=r.get('unused_replacements'))
                else:
                    err = open(of + '.err').read() if os.path.exists(of + '.err') else pr.stderr[-2000:]
                    r = dict(entry=e, toollimit='worker failed: ' + err[-1500:], obls=[], covers={}, assumed=[], loops=[],
                             bounded=None, ninstr=0, solver_s=0, queries=0, functions={}, wall_s=0)
            except subprocess.TimeoutExpired:
                r = dict(entry=e, toollimit='worker timeout', obls=[], covers={}, assumed=[], loops=[], bounded=None, ninstr=0,
                         solver_s=0, queries=0, functions={}, wall_s=b)
            r['unit'] = u['name']
            if r.get('consts'):
                self.consts[(u['name'], e)] = r['consts']
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            self.say(u['name'], e, '%d obligations, %d open' % (len(r['obls']), len(bad)), '%.1fs' % r['wall_s'],
                     'solver %.1fs' % r['solver_s'], 'TOOLLIMIT ' + r['toollimit'] if r['toollimit'] else '',
                     'unused replacement %s' % r.get('unused') if r.get('unused') else '',
                     'uncovered: %s' % [k for k, v in r['covers'].items() if not v] if not all(r['covers'].values()) else '')
            for o in bad:
                self.say('    OPEN', o['name'], o['status'], o['where'], str(o.get('cex'))[:600])
            return r
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(tasks))))

    # -- native replay ---------------------------------------------------------------------
    def native(self, u, e):
        """build the harness natively with the same sources; returns path of the binary"""
        key = hashlib.md5((u['name'] + e).encode()).hexdigest()[:8]
        exe = os.path.join(self.scratch, 'n_' + key)
        if os.path.exists(exe):
            return exe
        std = ['g++', '-std=gnu++11', '-maes', '-march=x86-64', '-O1', '-g', '-w', '-fno-access-control', '-pthread',
               '-ffunction-sections', '-fdata-sections', '-ffp-contract=off', '-fno-strict-aliasing'] + DEFS + \
              ['-DBOOST_ALL_DYN_LINK'] + INCS + list(u.get('defs', ()))
        stdc = ['gcc', '-std=gnu11', '-maes', '-march=x86-64', '-O1', '-w', '-ffunction-sections', '-fdata-sections',
                '-fno-strict-aliasing'] + DEFS + INCS
        jobs = [(os.path.join(VERIF, 'props', u['harness']), 'h_%s.o' % key),
                (os.path.join(VERIF, 'irv', 'native.cpp'), 'nat_%s.o' % key)]
        for t in list(u['tus']) + list(u.get('native', ())):
            jobs.append((src(t), 't_' + hashlib.md5(t.encode()).hexdigest()[:8] + '.o'))

        # call sites of replaced callees are bound to their contract stubs in the object files
        rs = self.rsyms.get(u['name'], {}) if u.get('bind') else {}
        rtag = hashlib.md5(repr(sorted(rs.items())).encode()).hexdigest()[:6] if rs else ''
        jobs = jobs[:2] + [(s, rtag + o) for s, o in jobs[2:]]
        if rs:
            # the compiler of the verified code: the names of local instances agree
            std = ['clang++', '-Wno-everything'] + std[1:]
            std[std.index('-O1')] = '-O0'
            std.append('-fno-inline')

        hn = jobs[:2]

        def one(j):
            o = os.path.join(self.scratch, j[1])
            if os.path.exists(o):
                return
            ex = ['-DIRV_ENTRY=' + e] if j[0].endswith('native.cpp') else []
            if not rs or j in hn or j[0].endswith('.c'):
                run((stdc if j[0].endswith('.c') else std) + ex + ['-c', j[0], '-o', o])
                return
            # uses (not definitions) of the replaced functions are redirected in the assembly
            run([x for x in std if x != '-g'] + ['-S', '-fno-addrsig', j[0], '-o', o + '.s'])
            num = {m: k for k, m in enumerate(sorted(rs))}
            with open(o + '.s') as f, open(o + '.b.s', 'w') as g:
                for line in f:
                    t = line.strip()
                    if t and t[0] != '#' and not re.match(r'[\w.$]+:', t) and (t[0] != '.' or t.startswith(('.quad', '.long'))):
                        line = re.sub(r'[\w.$]+', lambda m: 'irv_bound_%d' % num[m.group()] if m.group() in num else m.group(), line)
                    g.write(line)
            run(['as', '--64', o + '.b.s', '-o', o])
        if rs:
            t = os.path.join(self.scratch, 'bound_%s.s' % key)
            with open(t, 'w') as f:
                for k, m in enumerate(sorted(rs)):
                    f.write('.globl irv_bound_%d\nirv_bound_%d: jmp %s\n' % (k, k, rs[m]))
                f.write('.section .note.GNU-stack,"",@progbits\n')
            run(['gcc', '-c', t, '-o', t[:-2] + '.o'])
            jobs.insert(0, (None, 'bound_%s.o' % key))
        with ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(one, j) for j in jobs if j[0]]:
                r.result()
        run(['g++', '-pthread', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition', '-no-pie'] +
            [os.path.join(self.scratch, j[1]) for j in jobs] +
            ['-lboost_system', '-lboost_filesystem', '-lboost_thread', '-lboost_date_time', '-lboost_chrono', '-o', exe])
        return exe

    def replay(self, u, e, cex, obl):
        """True when the counterexample fails on the real code"""
        vf = os.path.join(self.scratch, 'v.txt')
        with open(vf, 'w') as f:
            for nm, v in cex:
                if isinstance(v, list):
                    flat = []
                    for x in v:
                        flat.extend(x if isinstance(x, list) else [x])
                    # wide fields are split into 8-byte words
                    f.write(nm + ''.join(' %d' % x for x in flat) + '\n')
                else:
                    f.write('%s %d\n' % (nm, v))
        try:
            exe = self.native(u, e)
            p = subprocess.run([exe, vf], capture_output=True, text=True, timeout=60, errors='replace', cwd=self.scratch)
        except BuildError as x:
            self.say('native build failed', str(x)[-1500:])
            return None, 'native build failed: ' + str(x)[-800:]
        except subprocess.TimeoutExpired:
            return None, 'native replay timed out'
        out = p.stdout[-2000:] + p.stderr[-1000:]
        self.say('replay', e, obl, 'rc', p.returncode, out[-300:])
        # a crash confirms only a failed memory or arithmetic obligation
        crash = p.returncode in (-11, -6, -8) and obl.split('.')[0] in ('mem', 'arith', 'no', 'code')
        failed = 'ASSERT-FAILED' in p.stdout or crash
        return failed, out + '\nexit status %d' % p.returncode

    def random(self, u, e, secs):
        try:
            exe = self.native(u, e)
            d = os.path.join(self.scratch, 'dict.txt')
            with open(d, 'w') as f:
                f.write('\n'.join(map(str, self.consts.get((u['name'], e), ()))))
            p = subprocess.run([exe, '--random', str(self.seed), '2000000', str(int(secs)), d], capture_output=True, text=True,
                               timeout=secs + 60, errors='replace', cwd=self.scratch)
        except (BuildError, subprocess.TimeoutExpired) as x:
            return None, str(x)[-500:]
        if 'ASSERT-FAILED' in p.stdout or p.returncode in (-11, -6, -8):
            return True, p.stdout[-3000:] + p.stderr[-500:] + '\nexit status %d' % p.returncode
        return False, p.stdout[-300:] + p.stderr[-300:]

    def write_replay(self, name, text):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.txt' % (self.pid, re.sub(r'[^A-Za-z0-9_.-]', '_', name)[:60]))
        with open(path, 'w') as f:
            f.write(text)
        return path

    # -- main --------------------------------------------------------------------------------
    def main(self):
        us = self.units()
        violations, unreplayed, notes = [], [], []
        results = []
        fallback = []
        try:
            self.compile_all(us)
        except BuildError as x:
            # the contracts no longer fit the source: nothing can be redone
            path = self.write_replay('build', 'The contract harness no longer compiles against /repo:\n' + str(x))
            self.evidence([], ['harness build failed'], 1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
            return 1
        results = self.verify(us)
        umap = {u['name']: u for u in us}
        # a solver that ran out of time (a loaded machine) gets a second, longer chance
        slow = [r for r in results if not r['toollimit'] and any(o['status'] != 'proved' for o in r['obls'])
                and not any(o['status'] == 'failed' for o in r['obls'])]
        if slow and self.elapsed() < 350:
            es = [dict(umap[r['unit']], entries=[r['entry']], budget=250) for r in slow]
            for r in self.verify(es, 'e', dict(scale=1)):
                if not r['toollimit']:
                    results = [r if (x['unit'], x['entry']) == (r['unit'], r['entry']) else x for x in results]
        tried = 0
        for r in results:
            u = umap[r['unit']]
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            unc = [k for k, v in r['covers'].items() if not v]
            ok = not bad and not r['toollimit'] and r['obls'] and not unc
            if ok:
                continue
            r['open'] = True
            hit = False
            for o in bad:
                if o.get('cex') and tried < 12 and not hit:
                    tried += 1
                    f, out = self.replay(u, r['entry'], o['cex'], o['name'])
                    if f:
                        path = self.write_replay(r['entry'] + '-' + o['name'],
                                                 'property %s\nobligation %s (%s)\nentry %s of %s\ncounterexample:\n%s\nnative run:\n%s\n'
                                                 % (self.pid, o['name'], o['where'], r['entry'], u['harness'], json.dumps(o['cex']), out))
                        violations.append((o['name'], path))
                        hit = True
            if hit:
                continue
            fallback.append((r, u, bad, unc))
        # random native runs, then bounded symbolic search
        if fallback and not violations:
            for secs in (10,):
                for r, u, bad, unc in fallback:
                    if u.get('norandom') or violations:
                        continue
                    f, out = self.random(u, r['entry'], secs)
                    r['random'] = out[-200:]
                    self.say('random', r['entry'], f, out[-500:])
                    if f:
                        path = self.write_replay(r['entry'] + '-random', 'property %s\nentry %s of %s\nrandom native run fails:\n%s\n'
                                                 % (self.pid, r['entry'], u['harness'], out))
                        violations.append((r['entry'], path))
            for maxlen, budget in ((1, 60), (3, 100)):
                if violations or self.elapsed() > 550:
                    break
                fu = [dict(u, entries=[r['entry']], budget=budget) for r, u, bad, unc in fallback]
                br = self.verify(fu, 'b%d' % maxlen, dict(maxlen=maxlen, timeout=8000))
                for (r, u, bad, unc), b in zip(fallback, sorted(br, key=lambda x: [(f['name'], f['entries'][0]) for f in fu].index((x['unit'], x['entry'])))):
                    r['fallback'] = b
                    hit = False
                    for o in b['obls']:
                        if o['status'] == 'failed' and o.get('cex') and not hit:
                            f, out = self.replay(u, r['entry'], o['cex'], o['name'])
                            if f:
                                path = self.write_replay(r['entry'] + '-' + o['name'],
                                                         'property %s\nobligation %s (%s)\nentry %s of %s\ncounterexample (bounded search):\n%s\nnative run:\n%s\n'
                                                         % (self.pid, o['name'], o['where'], r['entry'], u['harness'], json.dumps(o['cex']), out))
                                violations.append((o['name'], path))
                                hit = True
            if not violations:
                for r, u, bad, unc in fallback:
                    if bad or unc or not r['toollimit']:
                        nm = bad[0]['name'] if bad else 'coverage ' + ','.join(unc)
                        txt = 'property %s: obligation(s) of %s no longer discharged and no failing input was found\n' % (self.pid, r['entry'])
                        txt += json.dumps(dict(open=bad, uncovered=unc, toollimit=r['toollimit'], random=r.get('random')), indent=1, default=str)
                        unreplayed.append((nm, self.write_replay(r['entry'] + '-' + nm, txt)))
                    else:
                        notes.append('%s: outside the verifier\'s reach in this tree (%s); bounded and random exploration found nothing'
                                     % (r['entry'], r['toollimit'][:300]))
        self.evidence(results, notes, len(violations) + len(unreplayed))
        for k in self.p.get('known', []):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if violations:
            for nm, path in violations[:1]:
                print('obligation %s refuted; counterexample replayed against the real code' % nm)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if unreplayed:
            nm, path = unreplayed[0]
            print('obligation %s not discharged' % nm)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
            return 1
        n = sum(len(r['obls']) for r in results)
        print('property %s: %d obligations discharged in %d entries, %.1fs%s' % (self.pid, n, len(results), time.time() - self.t0,
                                                                             ' (' + '; '.join(notes) + ')' if notes else ''))
        for x in notes:
            print('NOTE', x)
        return 0

    def evidence(self, results, notes, nviol):
        obl = [o for r in results for o in r['obls']]
        done = [o for o in obl if o['status'] == 'proved']
        bnd = [r for r in results if r.get('bounded') or r.get('open')]
        be = {}
        for o in done:
            be[o['backend']] = be.get(o['backend'], 0) + 1
        names = {}
        for o in obl:
            k = o['name']
            names.setdefault(k, [0, 0])
            names[k][0] += 1
            names[k][1] += o['status'] == 'proved'
        assumed = set()
        funcs = set()
        loops = set()
        for r in results:
            assumed |= set(r['assumed'])
            loops |= set(r['loops'])
            funcs |= set(r['functions'])
        us = self.units()
        targets = sorted({t for u in us for t in u.get('targets', [])})
        repl = sorted({'%s -> %s' % kv for u in us for kv in u.get('replace', {}).items()})
        level = self.p.get('level', 'proof')
        cov = dict(obligations=len(obl), discharged=len(done),
                   checker_cmd='python3 check.py %s --tier %s' % (self.pid, self.tier),
                   trusted_base=['irv symbolic executor and LLVM 18 front end/inliner', 'z3 5.3 / cvc5 1.1.2', 'models in irv/models.py',
                                 'sequential execution; allocation never fails'],
                   functions_under_contract=targets, executed_functions=len(funcs), contracts_used_for_callees=repl,
                   obligations_by_name={k: '%d/%d' % (v[1], v[0]) for k, v in sorted(names.items())},
                   back_ends=be, solver_seconds=round(sum(r['solver_s'] for r in results), 2),
                   loops_summarised_for_all_iterations=sorted(loops)[:60],
                   entries=[dict(unit=r['unit'], entry=r['entry'], obligations=len(r['obls']), covers=r['covers'], paths=r.get('paths'),
                                 instructions=r['ninstr'], wall_s=round(r['wall_s'], 2), bounded=r.get('bounded'),
                                 toollimit=r['toollimit'], status='open' if r.get('open') else 'proved' if not r.get('bounded') else 'bounded')
                            for r in results],
                   bounded_not_proved=[r['entry'] + (': ' + str(r.get('bounded') or r.get('toollimit') or 'open obligations')) for r in bnd],
                   notes=notes)
        if level != 'proof':
            cov['explanation'] = self.p.get('explanation', 'contract-based deductive verification, partly bounded')
            cov['evaluations'] = len(obl)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=sorted(assumed) + self.p.get('assumptions', []), wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--unit' in a:
        only = a[a.index('--unit') + 1]
    c = Check(pid, tier, '--verbose' in a, only)
    try:
        rc = c.main()
    finally:
        c.close()
    sys.exit(rc)


if __name__ == '__main__':
    main()
