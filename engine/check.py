"""check PROPERTY [--tier quick|thorough]   (see DESIGN.md)"""
import sys, os, time, json, re, importlib, multiprocessing as mp, traceback, glob, resource, signal, threading, shutil
ENG = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENG)
sys.path[:0] = [ENG, VERIF + '/harness/gen']
import build, props


def load_known():
    p = VERIF + '/known-findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p))['known']


def worker(q, prog, entry, nat, asan, seed, cfg):
    import machine, driver
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    t0 = time.time()
    try:
        import z3
        m = machine.Machine(prog)
        m.max_steps = cfg.get('max_steps', 20_000_000)
        d = driver.Driver(m, entry, nat, asan, seed, cfg.get('max_paths', 3000), cfg.get('timeout', 4000),
                          time.time() + cfg['budget'])
        r = d.run(entry)
        r['funcs'] = sorted(m.funcs_used)
    except MemoryError:
        r = dict(entry=entry, error='out of memory')
    except BaseException as e:
        r = dict(entry=entry, error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
    r['wall'] = round(time.time() - t0, 2)
    q.send(r)
    q.close()


class Asan:
    """the sanitised builds of the real code, made on first use"""

    def __init__(self, root, files, cfiles, flags, lock, kw):
        self.root, self.files, self.cfiles, self.flags, self.lock, self.kw = root, files, cfiles, flags, lock, kw

    def __call__(self, which='address'):
        with self.lock:
            root = '%s_%s' % (self.root, which)
            if not os.path.exists(root + '/exe'):
                t = build.Tree(root, False, self.files, self.cfiles, self.flags + ['-O1', '-g', '-fsanitize=' + which], **self.kw)
                t.build()
                t.link('exe')
            return root + '/exe'


def run_entries(jobs, seed, cfg, nproc):
    """jobs: [(label, prog, entry, nat, asan)]"""
    res = []
    active = {}
    pend = list(jobs)
    while pend or active:
        while pend and len(active) < nproc:
            lab, prog, entry, nat, asan = pend.pop(0)
            rd, wr = mp.Pipe(False)
            p = mp.Process(target=worker, args=(wr, prog, entry, nat, asan, seed, cfg))
            p.start()
            wr.close()
            active[rd] = (p, lab, entry, time.time())
        ready = mp.connection.wait(list(active), timeout=1.0)
        for rd in ready:
            p, lab, entry, t0 = active.pop(rd)
            try:
                r = rd.recv()
            except EOFError:
                r = dict(entry=entry, error='worker died')
            p.join(5)
            r['variant'] = lab
            res.append(r)
        for rd in list(active):
            p, lab, entry, t0 = active[rd]
            if time.time() - t0 > cfg['budget'] + 90:
                p.kill()
                p.join()
                active.pop(rd)
                res.append(dict(entry=entry, variant=lab, error='time limit'))
    return res


def main():
    import mpmath, z3, multiprocessing.connection  # noqa: before forking
    import machine
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = props.PROPS[prop]
    cfg = dict(spec.get('cfg', {}))
    cfg.update(spec.get('cfg_thorough', {}) if tier == 'thorough' else {})
    cfg.setdefault('budget', 60 if tier == 'quick' else 600)
    if tier == 'thorough':
        cfg['timeout'] = cfg.get('timeout', 4000) * 5
        cfg['max_paths'] = cfg.get('max_paths', 3000) * 4
    root = build.scratch()
    hdir = root + '/h'
    os.makedirs(hdir, exist_ok=True)
    fort = spec.get('fortran', True)
    files = [VERIF + '/harness/vp.F90'] * fort + [VERIF + '/harness/' + f for f in spec.get('files', [])]
    gc = []
    for g in spec.get('gen', []):
        for n, txt in importlib.import_module(g).generate(tier).items():
            open(hdir + '/' + n, 'w').write(txt)
            (gc if n.endswith('.c') else files).append(hdir + '/' + n)
    gc += [VERIF + '/harness/' + f for f in spec.get('cfiles', [])]
    cfiles = [VERIF + '/harness/vp_native.c'] + gc
    want = spec.get('want_c')
    macro = ['-DVP_THOROUGH'] if tier == 'thorough' else []
    jobs = []
    tb = time.time()
    variants = spec['variants']
    if tier == 'thorough':
        variants = variants + spec.get('variants_thorough', [])
    built = {}

    def mkbuild(v):
        name, fl = v
        sy = build.Tree('%s/sym_%s' % (root, name), True, files, gc, fl + macro, want_c=want, fortran=fort)
        na = build.Tree('%s/nat_%s' % (root, name), False, files, cfiles, ['-O2', '-g'] + fl + macro, want_c=want, fortran=fort)
        th = threading.Thread(target=lambda: built.__setitem__(name + '/e', None))
        sy.build()
        na.build()
        na.link('exe')
        built[name] = (sy, na)
    for v in variants:
        mkbuild(v)
    units = {os.path.relpath(f, '/').replace('/', '_') for f in files + cfiles}
    build_s = time.time() - tb
    for name, fl in variants:
        sy, na = built[name]
        prog = machine.Program(sy.root)
        ents = [e for e, fn in prog.glob.items() if e.startswith('h_') and fn.unit in units]
        ents = [e for e in ents if tier == 'thorough' or not e.startswith('h_t_')]
        sel = dict(spec.get('select', {})).get(name)
        if sel:
            ents = [e for e in ents if re.match(sel, e)]
        if only:
            ents = [e for e in ents if e in only]
        asan = Asan('%s/asan_%s' % (root, name), files, cfiles, fl + macro, mp.Lock(), dict(want_c=want, fortran=fort))
        jobs += [(name, prog, e, na.exe, asan) for e in sorted(ents)]
    if not jobs:
        print('check: no harness entries')
        return 2
    res = run_entries(jobs, seed, cfg, build.NPROC)
    return report(prop, tier, seed, spec, cfg, res, build_s, t0, variants, only)


def report(prop, tier, seed, spec, cfg, res, build_s, t0, variants, only):
    known = [k for k in load_known() if k['property'] == prop]
    viol, knownhit, und, err, mism = [], [], [], [], []
    tot = dict(paths=0, steps=0, obligations=0, discharged=0, validated=0, replays=0)
    q = dict(n=0, unsat=0, sat=0, unknown=0, seconds=0.0)
    funcs, meth, ends, per = set(), {}, {}, []
    for r in res:
        lab = '%s@%s' % (r['entry'], r['variant'])
        if 'error' in r:
            err.append('%s: %s' % (lab, r['error']))
            if os.environ.get('VP_DEBUG'):
                print(lab, r.get('tb', r['error']))
            continue
        for k in tot:
            tot[k] += r[k]
        for k in q:
            q[k] += r['queries'][k]
        funcs |= set(r['funcs'])
        for d, s in ((meth, r['methods']), (ends, r['ends'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        for v in r['violations']:
            v['entry'], v['variant'] = r['entry'], r['variant']
            kk = [k for k in known if k['entry'] == r['entry'] and k['check'] == v['check'] and k.get('variant', r['variant']) == r['variant']]
            if kk:
                knownhit.append((kk[0], v))
            else:
                viol.append(v)
        und += ['%s: %s' % (lab, u) for u in r['undecided']]
        mism += ['%s: %s' % (lab, u) for u in r['mismatch']]
        if r['paths'] and not r['ids'] and not r['undecided'] and not r['violations']:
            und.append('%s: no obligation was reached (vacuous)' % lab)
        per.append([lab, r['paths'], r['obligations'], r['discharged'], len(r['undecided']), len(r['violations']), r['wall']])
    wall = time.time() - t0
    samples = per[:40]
    cov = dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=tot['validated'],
               obligations=tot['obligations'], discharged=tot['discharged'], native_replays=tot['replays'],
               queries=q, methods=meth, path_ends=ends, functions_encoded=sorted(f for f in funcs if not f.startswith('__vp_MOD')),
               n_functions=len(funcs), undecided=und[:80], n_undecided=len(und), errors=err, encoding_mismatches=mism,
               build_seconds=round(build_s, 2), variants=[v[0] + ' ' + ' '.join(v[1]) for v in variants], bounds=spec.get('bounds', ''),
               per_entry_columns=['entry', 'paths', 'obligations', 'discharged', 'undecided', 'violations', 'seconds'], per_entry=per,
               samples=samples,
               explanation='states = execution paths of the compiled code (each one a set of inputs described by its path condition); '
               'transitions = RTL instructions executed symbolically; traces_validated = paths whose encoding was compared with a '
               'run of the real code at a solver- or path-condition-chosen point')
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2), violations=len(viol),
              assumptions=spec.get('assumptions', []) + ASSUME)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    if not only:
        json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)
    for k, v in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: entries=%d paths=%d obligations=%d discharged=%d undecided=%d queries=%d (unsat %d sat %d unknown %d, %.1fs) '
          'validated=%d mismatches=%d functions=%d wall=%.1fs' %
          (prop, tier, len(res), tot['paths'], tot['obligations'], tot['discharged'], len(und), q['n'], q['unsat'], q['sat'],
           q['unknown'], q['seconds'], tot['validated'], len(mism), len(funcs), wall))
    if os.environ.get('VP_DEBUG'):
        seen = {}
        for u in und + err + mism:
            seen[u] = seen.get(u, 0) + 1
        for u in seen:
            print('  UNDECIDED/ERR', u, 'x%d' % seen[u] if seen[u] > 1 else '')
        for p in sorted(per, key=lambda x: -x[-1])[:8]:
            print('  slow', p)
    else:
        for u in (err + mism)[:10]:
            print('  note:', u)
    if viol:
        rp = VERIF + '/evidence/%s.violation.json' % prop
        json.dump(dict(property=prop, how='each record is one input of the real code: build the harness natively (engine/check.py does) '
                       'and run `exe <entry> <args...>`; got/want are the two sides of the failed check', violations=viol),
                  open(rp, 'w'), indent=1)
        for v in viol[:12]:
            print('  %s@%s check=%s got=%s want=%s args=%s %s' % (v['entry'], v['variant'], v['check'], v.get('got_f'), v.get('want_f'),
                                                            ' '.join(v['args']), (v.get('err') or v.get('end') or '')[:200]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err and len(err) == len(res):
        return 2
    return 0


ASSUME = [
    'encoded from the RTL that gfortran-11/gcc-11 -O2 produce (expand dump): GCC front/middle end correct; later passes not encoded',
    'real-arithmetic obligations: equality up to floating-point rounding (exact identity of the real functions, replay tolerance 1e-9)',
    'libm functions are uninterpreted beyond the listed analytic laws; libgfortran runtime entry points are modelled (engine/builtins_.py)',
    'I/O statements are no-ops; memory allocation never fails',
]

if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('check: build failed\n', e)
        rc = 2
    sys.exit(rc)
