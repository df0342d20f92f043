"""Path exploration of one harness entry and decision of its obligations."""
import random, time, math, struct, subprocess, os
import z3
import terms
from terms import *
from machine import PathEnd, Fault, Limit, EngineUnsupported
import realnf, bitz3, fprange
from realnf import NotReal, TooBig
from evalt import ev, subst, rebuild


class Ob:
    __slots__ = ('id', 'kind', 'a', 'b', 'tol', 'npc')

    def __init__(self, id, kind, a, b, tol, npc):
        self.id, self.kind, self.a, self.b, self.tol, self.npc = id, kind, a, b, tol, npc


class Path:
    def __init__(self):
        self.draws = []      # ('r', term, lo, hi) | ('a', term) | ('i', value)
        self.pc = []
        self.obs = []
        self.trace = []      # decisions taken
        self.fault = None
        self.end = 'return'
        self.uninit = False


def near_conc(a, b, tol):
    """the comparison the native vp_near makes"""
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def unlimit():
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.zt = 0.0


class Driver:
    def __init__(self, machine, entry, native=None, asan=None, seed=1, max_paths=4000, timeout=4000, deadline=None):
        self.m = machine
        self.entry = entry
        self.native = native
        self.asan = asan
        self.rnd = random.Random('%s/%d' % (entry, seed))
        self.max_paths = max_paths
        self.timeout = timeout
        self.deadline = deadline
        self.st = Stats()
        self.res = dict(entry=entry, paths=0, obligations=0, discharged=0, undecided=[], violations=[], notes=[], ids=set(),
                        validated=0, mismatch=[], replays=0, complete=True, methods={}, steps=0, ends={})
        self.fcache = {}
        self.confirmed = set()

    # ------------------------------------------------------------ called by the machine
    def new_real(self, lo=None, hi=None):
        p = self.p
        t = fvar(('a%d' if lo is None else 'x%d') % len(p.draws))
        if lo is None:
            p.draws.append(('a', t))
            self.bits = True
        else:
            p.draws.append(('r', t, lo, hi))
        self.pool = None
        return t

    def new_int(self, lo, hi):
        v = self.choose(range(lo, hi + 1))
        self.p.draws.append(('i', v))
        return v

    def choose(self, vals):
        """case split over concrete values"""
        vals = list(vals)
        k = len(self.p.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = vals[0]
            for o in reversed(vals[1:]):
                self.work.append(self.p.trace + [o])
        self.p.trace.append(v)
        return v

    INTOPS = ('zext', 'add', 'sub', 'mul', 'ite', 'sext', 'extract', 'and', 'or', 'xor', 'shl', 'lshr', 'eq', 'slt', 'ult', 'cat')

    def settle(self, t):
        """an integer computed from outcomes of floating-point comparisons: one path per outcome"""
        if type(t) is int or self.bits or t.op not in self.INTOPS:
            return t
        if not collect([t], lambda x: x.op in ('flt', 'fle', 'feq', 'fisnan')):
            return t

        def go(x):
            if type(x) is not T:
                return x
            if x.op in ('flt', 'fle', 'feq', 'fisnan'):
                return self.branch(x)
            if x.op in self.INTOPS or x.op in ('bnot', 'band'):
                a = []
                for y in x.args:
                    a.append(go(y))
                    if x.op == 'ite' and len(a) == 1 and type(a[0]) is int:
                        return go(x.args[1] if a[0] else x.args[2])
                    if x.op == 'band' and a[0] == 0 and type(a[0]) is int:
                        return 0
                return x if all(u is v for u, v in zip(a, x.args)) else rebuild(x, a)
            return x
        return go(t)

    def branch(self, t):
        if type(t) is not int and t.op in ('eq', 'slt', 'ult', 'bnot'):
            u = t.args[0] if t.op == 'bnot' else t
            if type(u) is T and u.op in ('eq', 'slt', 'ult'):
                v = self.settle(u)
                if v is not u:
                    t = v if u is t else bnot(v)
        if type(t) is int:
            return t
        p = self.p
        for c in p.pc:
            if c is t:
                return 1
            if c is bnot(t):
                return 0
        k = len(p.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            ft, ff = self.feasible(t), self.feasible(bnot(t))
            if not ft and not ff:
                # neither side satisfiable: the path itself is infeasible
                raise PathEnd('infeasible')
            if ft and ff:
                v = 1
                self.work.append(p.trace + [0])
            else:
                v = 1 if ft else 0
        p.trace.append(v)
        self.addpc(t if v else bnot(t))
        return v

    def addpc(self, t):
        if t.op == 'band':
            self.addpc(t.args[0])
            self.addpc(t.args[1])
        elif t not in self.p.pc:
            self.p.pc.append(t)

    def concretize(self, t):
        t = self.settle(t)
        if type(t) is int:
            return t
        p = self.p
        k = len(p.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            vs = self.enum_values(t)
            if not vs:
                raise PathEnd('infeasible')
            v = vs[0]
            for o in reversed(vs[1:]):
                self.work.append(p.trace + [o])
        p.trace.append(v)
        p.pc.append(eq(t, v, t.w))
        return v

    def split_trunc(self, t, w):
        """truncation of a real to an integer: one path per integer value (symbolic when there are too many)"""
        if self.bits:
            return f2i(t, w)
        p = self.p
        k = len(p.trace)

        def within(v):
            if v == 0:
                return band(flt(f2b(-1.0), t), flt(t, f2b(1.0)))
            if v > 0:
                return band(fle(f2b(float(v)), t), flt(t, f2b(float(v + 1))))
            return band(fle(t, f2b(float(v))), flt(f2b(float(v - 1)), t))
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            found = []
            for e in self.pool_now():
                try:
                    x = b2f(ev([t], e)[0])
                    if abs(x) < 1e6 and int(x) not in found:
                        found.append(int(x))
                except Exception:
                    pass
            v = None
            while len(found) <= 40:
                conds = p.pc + [bnot(within(c)) for c in found]
                r, model = self.sat([c for c in conds if type(c) is not int])
                if r == z3.unsat:
                    v = 'all'
                    break
                if r != z3.sat:
                    break
                try:
                    x = b2f(ev([t], self.model_env(model))[0])
                    if abs(x) >= 1e6 or int(x) in found:
                        break
                    found.append(int(x))
                except Exception:
                    break
            if v is None:
                v = 'sym'
            else:
                found.sort()
                v = found[0]
                for o in reversed(found[1:]):
                    self.work.append(p.trace + [o])
        p.trace.append(v)
        if v == 'sym':
            return f2i(t, w)
        c = within(v)
        if type(c) is not int:
            self.addpc(c)
        return v & ((1 << w) - 1)

    def enum_values(self, t, limit=64):
        if collect([t], lambda u: u.op == 'var'):
            raise Fault('uninit', 'value computed from uninitialised memory used as an address/size near %s: %s' % (self.m.loc, t))
        s, z = self.bits_solver(self.p.pc)
        b = z.bv(t, t.w)
        for c in z.side:
            s.add(c)
        out = []
        while len(out) < limit:
            r = self.check(s)
            if r == z3.unsat:
                return out
            if r != z3.sat:
                raise EngineUnsupported('cannot enumerate symbolic address/size')
            v = s.model().eval(b, True).as_long()
            out.append(v)
            s.add(b != v)
        raise Limit('more than %d values of an address/size' % limit)

    def assume(self, t):
        if type(t) is int:
            if not t:
                raise PathEnd('assume')
            return
        if not self.feasible(t):
            raise PathEnd('assume')
        self.addpc(t)
        self.pool = None

    def on_stop(self, kind, code):
        if self.expect_stop:
            raise PathEnd('expected stop')
        raise Fault('stop', '%s (code %s) near %s' % (kind, code, self.m.loc))

    def ob(self, id, kind, a, b, tol=0):
        self.p.obs.append(Ob(id, kind, a, b, tol, len(self.p.pc)))

    def check_true(self, id, t):
        self.ob(id, 'true', t, 1)

    def check_bits(self, id, a, b):
        self.ob(id, 'bits', a, b)

    def check_near(self, id, a, b, tol):
        self.ob(id, 'near', a, b, b2f(tol))

    def check_int(self, id, a, b):
        self.ob(id, 'int', self.settle(a), self.settle(b))

    def reach(self, id):
        self.ob(id, 'true', 1, 1)

    # ------------------------------------------------------------ solvers
    def check(self, s):
        t0 = time.time()
        r = s.check()
        self.st.zt += time.time() - t0
        self.st.queries += 1
        if r == z3.unsat:
            self.st.unsat += 1
        elif r == z3.sat:
            self.st.sat += 1
        else:
            self.st.unknown += 1
        return r

    def solver(self, timeout=None, logic=None):
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        return s

    def bits_solver(self, pc, uf=False, timeout=None):
        z = bitz3.Z(uf)
        s = self.solver(timeout)
        for c in pc:
            s.add(z.bo(c))
        if not uf:
            for d in self.p.draws:
                if d[0] == 'r':
                    f = z.fp(d[1])
                    s.add(z3.fpLEQ(f, z3.FPVal(d[3], bitz3.F64)), z3.fpLEQ(z3.FPVal(d[2], bitz3.F64), f))
        for c in z.side:
            s.add(c)
        z.side = []
        return s, z

    def real_base(self, pc, polys, ctx=None):
        lower = {d[1].args[0]: d[2] for d in self.p.draws if d[0] == 'r'}
        R = realnf.RealSolver(lower)
        ctx = ctx or R.ctx()
        cons = [R.bool(ctx, c, polys) for c in pc]
        for d in self.p.draws:
            if d[0] == 'r':
                x = z3.Real(d[1].args[0])
                cons += [x >= z3.RealVal(repr(d[2])), x <= z3.RealVal(repr(d[3]))]
        return R, ctx, cons

    def real_check(self, ctx, cons, polys, level=1, timeout=None):
        at = ctx.atoms_of(polys)
        s = self.solver(timeout)
        for c in cons:
            s.add(c)
        for c in ctx.axioms(at, level):
            s.add(c)
        r = self.check(s)
        return r, (s.model() if r == z3.sat else None)

    def model_env(self, model):
        """{var: bits} from a z3 model over reals or bit-vectors"""
        env = {}
        for d in self.p.draws:
            if d[0] == 'i':
                continue
            n = d[1].args[0]
            v = None
            try:
                x = model.eval(z3.Real(n), False)
                if z3.is_rational_value(x):
                    v = float(x.as_fraction())
                elif z3.is_algebraic_value(x):
                    v = float(x.approx(20).as_fraction())
            except Exception:
                pass
            if v is None:
                y = model.eval(z3.BitVec(n, 64), False)
                if z3.is_bv_value(y):
                    env[n] = y.as_long()
                    continue
            if v is None:
                v = (d[2] + d[3]) / 2 if d[0] == 'r' else 1.5
            if d[0] == 'r':
                v = min(max(v, d[2]), d[3])
            env[n] = f2b(v)
        return env

    SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, math.inf, -math.inf, math.nan, 5e-324, 1e308, -1e308, 1e-300, 1.5]

    def rand_env(self, k):
        env = {}
        consts = None
        for d in self.p.draws:
            if d[0] == 'i':
                continue
            n = d[1].args[0]
            r = self.rnd.random()
            if d[0] == 'a':
                env[n] = f2b(self.rnd.choice(self.SPECIAL)) if r < 0.6 else f2b(self.rnd.uniform(-10, 10))
                continue
            lo, hi = d[2], d[3]
            if k == 0:
                v = lo + (hi - lo) * 0.6180339887
            elif r < 0.5:
                v = self.rnd.uniform(lo, hi)
            elif r < 0.65:
                v = self.rnd.choice([x for x in (0.0, 1.0, -1.0, 2.0, 0.5, lo, hi) if lo <= x <= hi])
            elif r < 0.8:
                m = self.rnd.choice([lo, hi, 0.0])
                v = m + self.rnd.choice([-1, 1]) * 10 ** self.rnd.uniform(-8, 0)
            else:
                s = max(abs(lo), abs(hi)) or 1
                v = self.rnd.choice([-1, 1]) * s * 10 ** self.rnd.uniform(-6, 0)
            env[n] = f2b(min(max(v, lo), hi))
        # tie some variables together
        vs = [d for d in self.p.draws if d[0] != 'i']
        if len(vs) > 1 and self.rnd.random() < 0.25:
            a, b = self.rnd.sample(vs, 2)
            if a[0] == b[0] and (a[0] == 'a' or b[2] <= b2f(env[a[1].args[0]]) <= b[3]):
                env[b[1].args[0]] = env[a[1].args[0]]
        return env

    def pool_now(self):
        if self.pool is None:
            self.pool = [self.rand_env(k) for k in range(24)]
            self.poolpc = 0
        # filter with the conditions added since
        new = self.p.pc[self.poolpc:]
        if new:
            self.pool = [e for e in self.pool if self.holds(new, e)]
            self.poolpc = len(self.p.pc)
        return self.pool

    def holds(self, conds, env):
        try:
            return all(ev(conds, env))
        except KeyError:
            return False
        except Exception:
            return False

    def feasible(self, t):
        for e in self.pool_now():
            if self.holds([t], e):
                return True
        key = (tuple(c.id for c in self.p.pc), t.id, tuple(d[2:4] for d in self.p.draws if d[0] == 'r'))
        r = self.fcache.get(key)
        if r is None:
            r, model = self.sat(self.p.pc + [t])
            if model is not None:
                e = self.model_env(model)
                if self.holds(self.p.pc + [t], e):
                    self.pool.append(e)
            r = r != z3.unsat
            self.fcache[key] = r
        return r

    def sat(self, conds, timeout=None):
        hasint = bool(collect(conds, lambda u: u.op in ('var', 'extract', 'cat', 'f2i', 'and', 'or', 'xor')))
        if not self.bits and not hasint:
            polys = []
            try:
                R, ctx, cons = self.real_base(conds, polys)
                return self.real_check(ctx, cons, polys, 1, timeout or 2500)
            except (NotReal, TooBig, ZeroDivisionError):
                return z3.unknown, None
        if collect(conds, lambda u: u.op in ('fn:exp', 'fn:log')):
            # bit-blasting does not get through these: range reasoning with monotonic rounding
            try:
                s = self.solver(timeout or 2500)
                for c in fprange.query(conds):
                    s.add(c)
                r = self.check(s)
                return (r if r == z3.unsat else z3.unknown), (s.model() if r == z3.sat else None)
            except fprange.NotRange:
                pass
        s, z = self.bits_solver(conds, timeout=timeout or 2500)
        r = self.check(s)
        return r, (s.model() if r == z3.sat else None)

    # ------------------------------------------------------------ exploration
    def run(self, fn):
        self.work = [[]]
        m = self.m
        while self.work:
            if self.res['paths'] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.res['complete'] = False
                self.res['undecided'].append('exploration stopped after %d paths, %d prefixes left' % (self.res['paths'], len(self.work)))
                break
            self.prefix = self.work.pop()
            p = self.p = Path()
            self.pool = None
            self.poolpc = 0
            self.bits = False
            self.expect_stop = False
            terms_limit = 3_000_000
            if len(terms._table) > terms_limit:
                terms.reset()
                self.fcache.clear()
            m.start(self)
            try:
                m.call_entry(fn)
            except PathEnd as e:
                p.end = str(e) or 'end'
            except Fault as e:
                p.fault = e
                p.end = 'fault'
            except (Limit, EngineUnsupported) as e:
                p.end = 'unsupported'
                self.res['complete'] = False
                self.res['undecided'].append('%s: %s' % (type(e).__name__, e))
            self.res['steps'] += m.steps
            self.res['ends'][p.end] = self.res['ends'].get(p.end, 0) + 1
            if p.end == 'infeasible':
                continue
            self.res['paths'] += 1
            self.decide(p)
        self.res['ids'] = sorted(self.res['ids'])
        self.res['queries'] = dict(n=self.st.queries, unsat=self.st.unsat, sat=self.st.sat, unknown=self.st.unknown,
                                   seconds=round(self.st.zt, 2))
        return self.res

    # ------------------------------------------------------------ obligations
    def decide(self, p):
        cand = []          # (obligation id, env) to be replayed
        bad = []
        for o in p.obs:
            self.res['ids'].add(o.id)
            self.res['obligations'] += 1
            if self.deadline and time.time() > self.deadline + 30:
                bad.append((o, None, 'time'))
                continue
            try:
                r, env, how = self.decide1(p, o)
            except (NotReal, TooBig, ZeroDivisionError, z3.Z3Exception) as e:
                r, env, how = 'unknown', None, '%s %s' % (type(e).__name__, e)
            if r == 'ok':
                self.res['discharged'] += 1
                self.res['methods'][how] = self.res['methods'].get(how, 0) + 1
            else:
                bad.append((o, env, how))
        if p.fault:
            self.res['obligations'] += 1
            bad.append((None, None, 'fault'))
        elif p.end != 'unsupported':
            self.res['obligations'] += 1      # absence of faults on this path
            self.res['discharged'] += 1
            self.res['methods']['no-fault'] = self.res['methods'].get('no-fault', 0) + 1
        if bad:
            self.replay_bad(p, bad)
        elif p.end == 'unsupported' and self.native:
            # the encoding stopped short: nothing is decided beyond this point (recorded above); the points the solver
            # finds for the path so far are still tried on the real code
            for env in self.witnesses(p, 3):
                self.replay(p, env, None)
        if self.native and self.res['validated'] < 40 and p.end in ('return', 'expected stop') and not p.fault:
            self.validate(p)

    def decide1(self, p, o):
        pc = p.pc[:o.npc]
        if o.kind in ('true', 'int'):
            t = o.a if o.kind == 'true' else eq(o.a, o.b, 32)
            if type(t) is int:
                if not t and self.sat(pc, self.timeout)[0] == z3.unsat:
                    return 'ok', None, 'z3-path'
                return ('ok', None, 'concrete') if t else ('bad', None, 'concrete')
            r, model = self.sat(pc + [bnot(t)], self.timeout)
            if r == z3.unsat:
                return 'ok', None, 'z3-path'
            return ('bad' if r == z3.sat else 'unknown'), (self.model_env(model) if model else None), 'z3-path'
        a, b = o.a, o.b
        if a is not b:
            mp = self.pinned(pc)
            if mp:
                r = subst([a, b] + pc, mp)
                a, b, pc = r[0], r[1], [c for c in r[2:] if c != 1]
                if 0 in pc:
                    return 'ok', None, 'z3-path'
        if type(a) is int and type(b) is int:
            if o.kind == 'bits':
                ok = a == b or (isnan(a) and isnan(b))
            else:
                ok = near_conc(b2f(a), b2f(b), o.tol)
            return ('ok' if ok else 'bad'), None, 'concrete'
        if a is b:
            s, z = self.bits_solver([], uf=True)
            x, y = z.bv(a), z.bv(b)
            s.add(x != y)
            if self.check(s) == z3.unsat:
                return 'ok', None, 'z3-uf'
        if o.kind == 'bits':
            s, z = self.bits_solver(pc, uf=True)
            x, y = z.bv(a), z.bv(b)
            s.add(x != y)
            if self.check(s) == z3.unsat:
                return 'ok', None, 'z3-uf'
            s, z = self.bits_solver(pc)
            x, y = z.fp(a), z.fp(b)
            s.add(z3.Not(x == y))
            for c in z.side:
                s.add(c)
            r = self.check(s)
            if r == z3.unsat:
                return 'ok', None, 'z3-fp'
            return ('bad' if r == z3.sat else 'unknown'), (self.model_env(s.model()) if r == z3.sat else None), 'z3-fp'
        # near
        if self.bits:
            s, z = self.bits_solver(pc)
            x, y = z.fp(a), z.fp(b)
            s.add(z3.Not(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))))
            for c in z.side:
                s.add(c)
            r = self.check(s)
            if r == z3.unsat:
                return 'ok', None, 'z3-fp'
            return ('bad' if r == z3.sat else 'unknown'), (self.model_env(s.model()) if r == z3.sat else None), 'z3-fp'
        polys = []
        R, ctx, cons = self.real_base(pc, polys)
        na, nb = ctx.nf(a), ctx.nf(b)
        pcpolys = list(polys)
        # definedness: where the reference is defined the implementation must be
        ga, gb = [], []
        R.guards(a, ga, set())
        R.guards(b, gb, set())
        gbk = {(k, x if type(x) is int else x.id) for k, x, u in gb}
        new = [g for g in ga if (g[0], g[1] if type(g[1]) is int else g[1].id) not in gbk]
        gcons = [R.gz(ctx, k, x, polys) for k, x, u in gb]
        if new:
            gp = list(polys)
            neg = z3.Or([z3.Not(R.gz(ctx, k, x, gp)) for k, x, u in new])
            r = z3.unknown
            for lv, to in ((1, self.timeout), (2, self.timeout)):
                r, model = self.real_check(ctx, cons + gcons + [neg], gp, lv, to)
                if r == z3.unsat:
                    break
            if r != z3.unsat:
                return ('bad' if r == z3.sat else 'unknown'), (self.model_env(model) if model else None), 'definedness'
        d = ctx.add(na, ctx.neg(nb))
        za, zb = ctx.znf(na), ctx.znf(nb)
        if not d.num:
            s = self.solver()
            # the polynomial identity itself, for every value of the atoms
            s.add(za[0] * zb[1] != zb[0] * za[1])
            r = self.check(s)
            if r == z3.unsat:
                return 'ok', None, 'z3-nra-identity'
            # too big for z3's normaliser: pose the difference that the rewriting produced
            s = self.solver()
            s.add(ctx.zpoly(d.num) != 0)
            if self.check(s) == z3.unsat:
                return 'ok', None, 'z3-nf'
        pl = polys + [d.num]
        goal = ctx.zpoly(d.num) != 0
        r, model = self.real_check(ctx, cons + gcons + [goal], pl, 1)
        if r == z3.unsat:
            return 'ok', None, 'z3-nra-path'
        env1 = self.model_env(model) if model else None
        # difference within the tolerance everywhere?
        dp = ctx.den_poly(d.den)
        pl2 = polys + [d.num, dp, na.num, ctx.den_poly(na.den)]
        q = ctx.zpoly(d.num)
        dz = ctx.zpoly(dp)
        goal2 = z3.Or(q * dz > z3.RealVal(repr(o.tol)) * dz * dz, -q * dz > z3.RealVal(repr(o.tol)) * dz * dz)
        r2, model2 = self.real_check(ctx, cons + gcons + [goal2], pl2, 2)
        if r2 == z3.unsat:
            return 'ok', None, 'z3-nra-tol'
        env2 = self.model_env(model2) if model2 else None
        envs = [e for e in (env2, env1) if e]
        return ('bad' if r2 == z3.sat else 'unknown'), (envs or None), 'z3-nra'

    def pinned(self, pc):
        """variables the path condition fixes to a constant"""
        mp = {}
        for c in pc:
            if c.op == 'feq':
                x, y = c.args
                if type(y) is T:
                    x, y = y, x
                if type(y) is int and type(x) is T and x.op == 'fvar' and (y & ~SIGN or x.args[0][0] == 'x'):
                    mp[x.args[0]] = y
        return mp

    # ------------------------------------------------------------ replay
    def witnesses(self, p, n=8):
        """points satisfying the path condition"""
        self.p = p
        out = []
        for k in range(400):
            e = self.rand_env(k)
            if self.holds(p.pc, e):
                out.append(e)
                if len(out) >= n:
                    return out
            if k > 60 and not any(d[0] != 'i' for d in p.draws):
                break
        if len(out) < n:
            r, model = self.sat(p.pc)
            if model:
                e = self.model_env(model)
                out.append(e)
        return out

    def draws_args(self, p, env):
        a = []
        for d in p.draws:
            if d[0] == 'i':
                a.append('i:%d' % d[1])
            else:
                a.append('r:%016x' % env.get(d[1].args[0], 0))
        return a

    def exec_native(self, args, exe=None):
        self.res['replays'] += 1
        try:
            pr = subprocess.run([exe or self.native, self.entry] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                timeout=60, preexec_fn=unlimit, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
            out, rc, err = pr.stdout.decode(errors='replace'), pr.returncode, pr.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired:
            out, rc, err = '', 'timeout', ''
        checks = []
        end = None
        for l in out.split('\n'):
            f = l.split()
            if not f:
                continue
            if f[0] == 'VPC':
                checks.append((f[1], f[2], f[3] == '1', int(f[4], 16), int(f[5], 16)))
            elif f[0] == 'VPEND':
                end = f[1]
        return checks, end, rc, err

    def replay(self, p, env, why):
        """True if the real code shows a violation at this point"""
        args = self.draws_args(p, env or {})
        checks, end, rc, err = self.exec_native(args)
        badc = [c for c in checks if not c[2]]
        if end in ('assume', 'draws'):
            return False
        if badc:
            for c in badc:
                if c[0] in self.confirmed:
                    continue
                self.confirmed.add(c[0])
                self.res['violations'].append(dict(check=c[0], kind=c[1], got='%016x' % c[3], want='%016x' % c[4],
                                                   got_f=repr(b2f(c[3])) if c[1] in ('near', 'bits') else c[3],
                                                   want_f=repr(b2f(c[4])) if c[1] in ('near', 'bits') else c[4],
                                                   args=args, solver=why))
            return True
        if end in ('return', 'expected-stop'):
            return False
        key = 'abnormal-end'
        if key not in self.confirmed:
            self.confirmed.add(key)
            self.res['violations'].append(dict(check=key, kind='end', end=end, rc=rc, err=err[-600:], args=args, solver=why))
        return True

    def replay_bad(self, p, bad):
        hit = set()
        if self.native:
            for o, envs, how in bad:
                if o is not None and o.id in self.confirmed:
                    hit.add(id(o))
                    continue
                if envs is None:
                    envs = []
                elif isinstance(envs, dict):
                    envs = [envs]
                for e in envs:
                    self.replay(p, e, how)
                if o is not None and o.id in self.confirmed:
                    continue
            if any(o is not None and o.id not in self.confirmed for o, _, _ in bad) or p.fault:
                for e in self.witnesses(p, 8):
                    self.replay(p, e, 'path witness')
        if p.fault:
            ok = 'abnormal-end' in self.confirmed
            if not ok and self.asan and p.fault.kind not in ('stop',):
                race = p.fault.kind == 'data race'
                mark = 'WARNING: ThreadSanitizer: data race' if race else 'ERROR: AddressSanitizer: '
                for e in self.witnesses(p, 3):
                    args = self.draws_args(p, e)
                    checks, end, rc, err = self.exec_native(args, self.asan('thread' if race else 'address'))
                    if mark in err or (p.fault.kind == 'deadlock' and rc not in (0, 1)):
                        ok = True
                        self.confirmed.add('abnormal-end')
                        i = max(err.find(mark), 0)
                        self.res['violations'].append(dict(check='data-race' if race else 'memory-fault', kind='fault', err=err[i:i + 1200], args=args,
                                                           asan=True, solver='%s' % p.fault))
                        break
            if not ok:
                self.note_und('fault not reproduced natively: %s' % p.fault)
        for o, envs, how in bad:
            if o is not None and o.id not in self.confirmed:
                self.note_und('%s [%s] path %s' % (o.id, how, self.short(p)))

    def short(self, p):
        return ' & '.join(show(c, 4) for c in p.pc[:4])[:160]

    def note_und(self, s):
        if len(self.res['undecided']) < 60:
            self.res['undecided'].append(s)
        self.res['n_undecided'] = self.res.get('n_undecided', 0) + 1

    def validate(self, p):
        """the encoding against the real code at one point of the path"""
        ws = self.witnesses(p, 1)
        if not ws:
            return
        env = ws[0]
        if p.pc and not self.holds(p.pc, env):
            return
        try:
            vals = ev([x for o in p.obs for x in (o.a, o.b)], env)
        except KeyError:
            return
        checks, end, rc, err = self.exec_native(self.draws_args(p, env))
        if end in ('assume',):
            return
        if len(checks) != len(p.obs):
            self.res['mismatch'].append('check count %d vs %d (end %s rc %s)' % (len(checks), len(p.obs), end, rc))
            return
        for k, (c, o) in enumerate(zip(checks, p.obs)):
            if c[0] != o.id:
                self.res['mismatch'].append('check order %s vs %s' % (c[0], o.id))
                return
            if o.kind in ('near', 'bits'):
                for x, y in ((vals[2 * k], c[3]), (vals[2 * k + 1], c[4])):
                    if x != y and not (isnan(x) and isnan(y)):
                        if not near_conc(b2f(x), b2f(y), 1e-13):
                            self.res['mismatch'].append('%s: encoded %r native %r' % (o.id, b2f(x), b2f(y)))
                            return
            elif o.kind == 'int':
                if vals[2 * k] != c[3] or vals[2 * k + 1] != c[4]:
                    self.res['mismatch'].append('%s: encoded %r native %r' % (o.id, vals[2 * k:2 * k + 2], c[3:5]))
                    return
            elif bool(vals[2 * k]) != bool(c[3]):
                self.res['mismatch'].append('%s: encoded %r native %r' % (o.id, vals[2 * k], c[3]))
                return
        self.res['validated'] += 1
