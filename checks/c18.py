"""C18: module export is all-or-nothing under I/O faults."""
import copy
import os

TIERS = {'quick': {'runs': 240, 'wall': 240, 'timeout': 120}, 'thorough': {'runs': 20000, 'wall': 3000, 'timeout': 240}}
RULE = ('a case is a history of 2-6 exports of generated modules of 1-3 systems and both generators under one class name in one '
        'directory (target absent, a previous module, or something else), each possibly hit by one fault: an error, a short '
        'write, a disk that becomes full, a crash before, after or in the middle of a chosen system call, another process '
        'exporting at that moment, or an interrupt at a chosen source line; a crash is followed by new objects only; then one '
        'export without fault; the bytes at the target, the reported success and the imported model are judged; non-trivial '
        'when a fault fired; distinct by event-log and fault digest')
REAL = ['ModelBuilder.write_module', 'sympkf.symbolic.model_builder*', 'generated model code', 'file system of a scratch directory']
STUB = ['outcome of the system calls on the scratch directory (sim/disk.py)', 'death of the process (the disk refuses everything afterwards)',
        'default text encoding', 'arrival of interrupts (seeded)', 'iteration order of sets in sympkf (seeded)']
ASSUMPTIONS = ['the process may die, not the machine: what was handed to the kernel survives',
               'the file is written by Python file objects or os-level calls, replaced by rename, in the current directory']

NAMES = ['SimExport', 'PKFburgers', 'model', 'A']


def gen_case(rng, tier, k):
    from checks import codegen as G
    case = {'env': {'hashseed': rng.randrange(6), 'cache': 'default'}, 'salt': rng.choice([0, rng.getrandbits(40)]),
            'mseed': rng.randrange(10 ** 6), 'class': rng.choice(NAMES), 'encoding': rng.choice(['utf-8', 'utf-8', 'latin-1', 'ascii']),
            'before': rng.choice(['absent', 'absent', 'module', 'other', 'long']), 'systems': [], 'ops': []}
    for i in range(rng.choice([1, 2, 2, 3])):
        dim = rng.choice([1, 1, 2])
        spec = G.gen_spec(rng, dim=dim, nf=rng.choice([1, 2]), order=2, nterms=(1, 3 if i else 2), maxdeg=2, exotic=0.0)
        case['systems'].append({'spec': spec, 'kind': rng.choice(['FD', 'FD', 'manifold'])})
    if rng.random() < 0.2:
        rename(case['systems'][rng.randrange(len(case['systems']))]['spec'], rng.choice(['η', 'uη', 'é_1']))
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        op = {'sys': rng.randrange(len(case['systems'])), 'again': rng.random() < 0.3}
        r = rng.random()
        if r < 0.7:
            op['disk'] = {'f': rng.random(), 'g': rng.random(), 'b': rng.random(), 'e': rng.random(), 'after': rng.random() < 0.5,
                          'what': rng.choice(['crash', 'crash', 'crash', 'error', 'error', 'error', 'short', 'full', 'full', 'other_process'])}
            op['disk']['other'] = rng.randrange(len(case['systems']))
        elif r < 0.9:
            op['fault'] = {'ff': rng.random(), 'of': rng.random(), 'kind': rng.choice(['interrupt', 'memory', 'crash', 'crash'])}
        case['ops'].append(op)
    case['ops'].append({'sys': rng.randrange(len(case['systems'])), 'again': False})
    return case


def rename(spec, new):
    old = spec['fields'][0]
    spec['fields'][0] = new
    for eq in spec['eqs']:
        for t in eq:
            for x in t[2]:
                if x[0] == old:
                    x[0] = new


def run_case(case, ctx):
    import contextlib
    import importlib.util
    import io
    import shutil
    import tempfile
    import numpy as np
    from checks import codegen as G, pdes
    from sim import disk as D
    from sim.core import SimCrash, Violation, resolve_faults
    base = tempfile.mkdtemp(prefix='c18-', dir=os.path.dirname(os.environ.get('VERIF_PYC', '')) or None)
    here = os.getcwd()
    pdesys = [pdes.build(s['spec']) for s in case['systems']]
    name = case['class']

    def builder(i):
        return G.builder(pdesys[i], case['systems'][i]['kind'], name)

    def read(d, f):
        p = os.path.join(d, f)
        if not os.path.lexists(p):
            return None
        with open(p, 'rb') as fh:
            return fh.read()

    def export(b):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                r = ctx.call(b.write_module)
            except SimCrash as e:
                r = ('crash', e)
        return r, out.getvalue()

    def trend_of(cls, i):
        s = case['systems'][i]['spec']
        dim = len(s['coords'])
        w = G.World(pdesys[i], [str(c) for c in pdesys[i].spatial_coordinates], [1.0] * dim, case['mseed'])
        shape = [9, 7][:dim]
        m = w.instance(cls, shape, case['systems'][i]['kind'])
        return w.trend(m, 0.5, shape, 3), list(m.prognostic_functions)
    concrete = copy.deepcopy(case['ops'])
    try:
        # exports without faults, each in its own directory: what a complete module is
        new, files, profs, ops, want = [], [], [], [], []
        for i in range(len(pdesys)):
            d = os.path.join(base, f'ref{i}')
            os.mkdir(d)
            os.chdir(d)
            b = builder(i)
            dk = D.SimDisk(ctx, d, case['encoding'])
            ctx.profile()
            with dk.active():
                (st, v), out = export(b)
            profs.append(ctx.end_profile())
            ops.append(list(dk.ops))
            ctx.check(st == 'ok', 'raises', lambda: f'export without fault of system {i} raised {v!r}')
            ctx.check(os.listdir(d) == [b.module_file] and b.module_file == b.module_name + '.py', 'file',
                      lambda: f'export wrote {os.listdir(d)}, reports {b.module_name} in {b.module_file}')
            files.append(b.module_file)
            new.append(read(d, b.module_file))
            ns = G.gen_module(builder(i).code, f'simgen_ref{i}')
            want.append(trend_of(getattr(ns, name), i))
        ctx.check(len(set(files)) == 1, 'file', lambda: f'one class name, files {files}')
        target = files[0]
        where = os.path.join(base, 'work')
        os.mkdir(where)
        os.chdir(where)
        prev = {'absent': None, 'module': new[-1], 'other': b'# notes of the user\nx = 1\n', 'long': new[0] + b'# a longer module\n' * 4000}[case['before']]
        if prev is not None:
            with open(target, 'wb') as f:
                f.write(prev)
        disk = D.SimDisk(ctx, where, case['encoding'])
        held = {}

        def load(i, what):
            """Import the target as a user does, and run the model."""
            def use():
                import sys
                spec = importlib.util.spec_from_file_location('simgen_loaded', os.path.join(where, target))
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                sys.modules['simgen_loaded'] = m
                return trend_of(getattr(m, name), i)
            got, names = ctx.must('model', f'{what}: importing the module and running its model', use)
            ctx.check(names == want[i][1] and np.array_equal(got, want[i][0], equal_nan=True), 'model',
                      lambda: f'{what}: the imported model differs from the executed code')
        fired = 0
        for n, op in enumerate(case['ops']):
            i = op['sys']
            b = held.get(i) if op.get('again') and i in held else builder(i)
            fresh = i not in held or held[i] is not b
            before = read(where, target)
            df = D.resolve(ops[i], op['disk']) if op.get('disk') else None
            if df and 'other' in op['disk']:
                df['other'] = op['disk']['other']
            lf = resolve_faults(profs[i], [op['fault']]) if op.get('fault') else []
            concrete[n]['disk'] = df
            concrete[n]['fault'] = lf[0] if lf else None
            other = df['other'] if df and df['kind'] == 'other_process' else None
            nested = {}

            def second():
                disk.hook = None
                nested['r'] = export(builder(other))
            ctx.arm(lf)
            with disk.active(df, second):
                (st, v), out = export(b)
            hit_line = bool(lf) and ctx.disarm() == 0
            crashed = st == 'crash'
            ctx.dead = False
            hit = disk.fired is not None or hit_line
            fired += hit
            after = read(where, target)
            what = f'export {n} (system {i}, {"fault " + str(disk.fired or lf) if hit else "no fault"}, {st})'
            ctx.log(what if not hit_line else n, st, None if after is None else len(after))
            good = [new[i]] + ([new[other]] if other is not None and 'r' in nested else [])
            if st == 'ok':
                ctx.check(after in good, 'incomplete', lambda: f'{what} returned but {target} holds {0 if after is None else len(after)} bytes instead of {len(new[i])}')
                ctx.check(b.module_file == target and b.module_name + '.py' == target, 'report', lambda: f'{what}: reports {b.module_name} in {b.module_file}')
                load(i if after == new[i] else other, what)
            else:
                ctx.check(after == before or after in good, 'torn',
                          lambda: f'{what}: {target} holds {"nothing" if after is None else f"{len(after)} bytes"}: neither the previous content '
                                  f'({"none" if before is None else len(before)}) nor the complete module ({len(new[i])})')
                if not crashed:
                    ctx.check(hit, 'raises', lambda: f'{what} raised {v!r}')
                    if disk.fired and disk.fired['kind'] in D.ERRNO or disk.full:
                        ctx.check(isinstance(v, OSError), 'raises', lambda: f'{what} raised {v!r} instead of the I/O error')
                    if after not in good:
                        ctx.check('has been written' not in out, 'report', lambda: f'{what}: success is printed: {out}')
                        if fresh:
                            ctx.check(getattr(b, 'module_file', None) is None and getattr(b, 'module_name', None) is None, 'report',
                                      lambda: f'{what}: reports {b.module_name} in {b.module_file} but nothing was written')
            if 'r' in nested:
                ctx.check(nested['r'][0][0] == 'ok', 'overlap', lambda: f'{what}: the export of another process raised {nested["r"][0][1]!r}')
            if crashed:
                held = {}          # a new process
            else:
                held[i] = b
        ctx.nontrivial = fired > 0
        ctx.concrete = {'ops': concrete}
    finally:
        ctx.dead = False
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)


def shrink(case):
    from checks import codegen as G
    n = len(case['ops'])
    for a in range(n):
        if n > 1:
            c = copy.deepcopy(case)
            del c['ops'][a]
            yield c
    for i, op in enumerate(case['ops']):
        for key in ('disk', 'fault'):
            if op.get(key):
                c = copy.deepcopy(case)
                c['ops'][i][key] = None
                yield c
    for s in range(len(case['systems'])):
        if len(case['systems']) > 1 and all(o['sys'] != s and (o.get('disk') or {}).get('other') != s for o in case['ops']):
            c = copy.deepcopy(case)
            del c['systems'][s]
            for o in c['ops']:
                o['sys'] -= o['sys'] > s
                if o.get('disk') and 'other' in o['disk']:
                    o['disk']['other'] -= o['disk']['other'] > s
            yield c
    for key, v in (('before', 'absent'), ('encoding', 'utf-8'), ('salt', 0)):
        if case[key] != v:
            yield dict(copy.deepcopy(case), **{key: v})
