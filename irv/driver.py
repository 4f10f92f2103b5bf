"""Builds the bitcode for a property from /repo's current sources and runs the engine."""
import os, sys, subprocess, time, json, re, hashlib, threading
import llvm, engine, models
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INCS = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/external', '-I' + VERIF + '/irv/stub',
        '-I' + REPO + '/src/Platform/Linux', '-I' + VERIF + '/irv']
DEFS = ['-D_DEFAULT_SOURCE', '-D_GNU_SOURCE', '-DHAVE_ROTR', '-DNDEBUG']
CXX = ['clang++', '-std=gnu++11', '-maes', '-march=x86-64', '-O2', '-g1', '-w', '-fno-access-control', '-ffp-contract=off',
       '-Xclang', '-mno-constructor-aliases', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c',
       '-include', VERIF + '/irv/stub/noextern.h', '-fno-threadsafe-statics', '-fno-strict-aliasing']
CC = ['clang', '-std=gnu11', '-maes', '-march=x86-64', '-O2', '-g1', '-w', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes',
      '-emit-llvm', '-c', '-fno-strict-aliasing']
PIPE = ('globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,'
        'simplifycfg,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify),globaldce')


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def compile_tu(src, out, extra=()):
    cc = CC if src.endswith('.c') else CXX
    run(cc + DEFS + INCS + list(extra) + [src, '-o', out])
    return out


def demangle_all(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    r = p.stdout.split('\n')
    return dict(zip(names, r))


def dyninits(m, dem, wanted):
    """(initialiser functions writing a wanted global, all dynamically initialised globals)"""
    dyn, inits = set(), []
    for f in m.all_functions():
        n = llvm.vname(f)
        if '__cxx_global_var_init' in n:
            mine = set()
            b = llvm.FirstBB(f)
            while b:
                i = llvm.FirstInstr(b)
                while i:
                    for k in range(llvm.NumOperands(i)):
                        o = llvm.GetOperand(i, k)
                        if llvm.ValueKind(o) == llvm.VK_GVAR and not llvm.IsGlobalConstant(o):
                            mine.add(llvm.vname(o))
                    i = llvm.NextInstr(i)
                b = llvm.NextBB(b)
            dyn |= mine
            dm = demangle_all(sorted(mine))
            if any(r.search(d) for r in wanted for d in dm.values()):
                inits.append(n)
    return inits, dyn


def unit_models(keep):
    rx = [re.compile(k) for k in keep]
    if not rx:
        return models.MODELS
    # a kept function is executed, never modelled
    return [(KeepAware(r, rx), f) for r, f in models.MODELS]


class KeepAware:
    def __init__(self, r, keep):
        self.r, self.keep = r, keep

    def search(self, d):
        if any(k.search(d) for k in self.keep):
            return None
        return self.r.search(d)


def stripper(dem, keep=(), strip_extra=()):
    keeprx = [re.compile(k) for k in keep]
    srx = [re.compile(s) for s in strip_extra]

    def strip(n):
        d = dem.get(n, n)
        if any(k.search(d) for k in keeprx):
            return False
        if any(r.search(d) for r, _ in models.MODELS):
            return True
        if any(r.search(d) for r in srx):
            return True
        return '__cxx_global_var_init' in n or n.startswith('_GLOBAL__sub_I')
    return strip


def build(harness, tus, scratch, extra=(), hdefs=()):
    """development helper"""
    jobs = [(harness, os.path.join(scratch, 'harness.bc'), list(extra) + ['-DIRV_SYMBOLIC'] + list(hdefs))]
    for i, t in enumerate(tus):
        jobs.append((t if t.startswith('/') else REPO + '/' + t, os.path.join(scratch, 'tu%d.bc' % i), list(extra)))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: compile_tu(*j), jobs))
    return [j[1] for j in jobs]
