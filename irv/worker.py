"""Verifies the entries of one unit in a separate process.  usage: worker.py unit.json out.json"""
import sys, os, json, re, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)
import llvm, engine, models, driver, resource
from mem import ToolLimit


def constants(m):
    """integer constants the loaded code compares with: the dictionary of the random search"""
    cs = set()
    for f in m.funcs.values():
        if not f.loaded:
            continue
        for b in f.blocks:
            for i in b.instrs:
                if i.op == 'switch':
                    cs |= {v[0] for v in i.y}
                elif i.op in ('icmp', 'add', 'sub', 'urem', 'udiv', 'and'):
                    for o in i.ops:
                        if type(o) is llvm.Const and llvm.ValueKind(o.ref) == llvm.VK_CINT and llvm.IntWidth(llvm.TypeOf(o.ref)) <= 64:
                            cs.add(llvm.ConstIntZ(o.ref))
    return sorted(c for c in cs if c > 3)[:2000]


def main(u, out):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (u.get('mem_gb', 8) << 30,) * 2)
    m = llvm.Module(u['bc'][0])
    for b in u['bc'][1:]:
        m.link(b)
    names = [llvm.vname(f) for f in m.all_functions()]
    dem = driver.demangle_all(names)
    entries = u['entries']
    rep = [(re.compile(a), b) for a, b in u.get('replace', {}).items()]
    stubs = {b for _, b in rep}
    missing = [s for s in list(stubs) + entries if s not in names]
    if missing:
        raise RuntimeError('missing in harness: %s' % missing)
    replace = {}
    for n in names:
        d = dem[n]
        if n in stubs or n in entries:
            continue
        for rx, b in rep:
            if rx.search(d):
                replace[n] = b
    unused = [a for a, b in u.get('replace', {}).items() if b not in replace.values()]
    initg = [re.compile(x) for x in u.get('init', [])]
    inits, dyn = driver.dyninits(m, dem, initg)
    strip0 = driver.stripper(dem, u.get('keep', []), u.get('strip', []))

    def strip(n):
        if n in inits:
            return False
        if n in replace:
            return True
        return strip0(n)
    noinl = [re.compile(x) for x in u.get('noinline', [])]
    m.prepare(entries + sorted(stubs) + inits, strip, driver.PIPE,
              (lambda n: any(r.search(dem.get(n, n)) for r in noinl)) if noinl else ())
    res = dict(unit=u['name'], entries=[], prepare_s=time.time() - t0, unused_replacements=unused, replaced=replace)
    for e in entries:
        t1 = time.time()
        opts = dict(u.get('opts', {}))
        if opts.pop('scale', None):
            # all solver limits are four times as long
            import z3
            z3set = z3.Solver.set
            z3.Solver.set = lambda self, k, v: z3set(self, k, int(4 * v) if k == 'timeout' else v)
        opts.update(u.get('eopts', {}).get(e, {}))
        opts['deadline'] = time.time() + u.get('budget', 500)
        en = engine.Engine(m, opts)
        en.models = driver.unit_models(u.get('keep', []))
        en.dem = dem
        en.dyninit = dyn
        en.replace = dict(replace)
        r = dict(entry=e, toollimit=None)
        try:
            st = engine.State()
            for i in inits:
                outs = en.call_function(st, m.func(i), [])
                outs = [o for o in outs if o[0] == 'ret']
                if len(outs) != 1:
                    raise ToolLimit('global initialiser forks')
                st = outs[0][1]
            outs = en.call_function(st, m.func(e), [])
            for o in outs:
                if o[0] == 'throw':
                    en.discharge(o[1], engine.z3.BoolVal(False), 'no.uncaught-exception', '%s' % (o[2].ti,))
            r['paths'] = len(outs)
        except ToolLimit as x:
            r['toollimit'] = str(x)[:2000]
        except RecursionError:
            r['toollimit'] = 'recursion limit'
        except MemoryError:
            r['toollimit'] = 'out of memory'
        except Exception as x:
            import traceback
            r['toollimit'] = 'internal error: ' + traceback.format_exc()[-1500:]
        r['obls'] = en.obls
        r['covers'] = en.covers
        r['assumed'] = sorted(en.assumed)
        r['loops'] = sorted(en.loops_summarised)
        r['bounded'] = en.bounded
        r['ninstr'] = en.ninstr
        r['solver_s'] = en.stime
        r['queries'] = en.nqueries
        r['functions'] = {dem.get(k, k): v for k, v in en.funcs_seen.items()}
        r['consts'] = constants(m)
        r['wall_s'] = time.time() - t1
        res['entries'].append(r)
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f, default=str)
        os.rename(out + '.tmp', out)
    res['done'] = True
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(out + '.tmp', out)


def go():
    u = json.load(open(sys.argv[1]))
    try:
        main(u, sys.argv[2])
    except BaseException as x:
        import traceback
        with open(sys.argv[2] + '.err', 'w') as f:
            f.write(traceback.format_exc())
        os._exit(3)
    os._exit(0)


if __name__ == '__main__':
    t = threading.Thread(target=go)
    t.start()
    t.join()
