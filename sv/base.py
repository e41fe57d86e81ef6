"""what every check returns."""
from engine import Engine, Rule


class Result:
    def __init__(self):
        self.violations = {}
        self.obligations = 0
        self.discharged = 0
        self.functions = 0
        self.visited = set()
        self.analysed = {}
        self.samples = []

    def bad(self, key, file, line, msg):
        self.violations.setdefault(key, (file, line, msg))

    def ob(self, n=1, good=True):
        self.obligations += n
        if good:
            self.discharged += n


class Check:
    explanation = ''
    assumptions = [
        'the compiler that builds the crate agrees with the nightly whose MIR the driver reads',
        'code of dependencies behaves as its documented interface says',
    ]

    def result(self):
        return Result()

    def check(self, F):
        raise NotImplementedError


class FlowCheck(Check):
    """a check decided by property simulation with `self.rule(F)`."""
    state0 = None
    maxargs = 1500
    maxsteps = 900000

    def simulate(self, F, rule, roots, state0=None, res=None):
        e = Engine(F, rule, roots, state0, maxargs=self.maxargs)
        e.run(self.maxsteps)
        if res is not None:
            res.visited |= set(e.visited_fns)
            res.functions = len(res.visited)
            res.analysed['program points'] = res.analysed.get('program points', 0) + sum(
                len(c.envs) for c in e.ctxs.values())
            res.analysed['function contexts'] = res.analysed.get('function contexts', 0) + len(e.ctxs)
            for k, (fn, line, msg) in e.reports.items():
                b = F.bodies.get(fn)
                res.bad(k, b.file if b else '?', line, '%s: %s' % (b.canon if b else fn, msg))
        return e


def fields_read(F, bid):
    """fields `ADT.f` the body and the closures in it look at, and the switch values on them."""
    out = set()
    for b in F.bodies.values():
        if b.id != bid and not (b.kind == 'closure' and b.id.startswith(bid + '::')):
            continue
        for blk in b.blocks:
            if blk['x']:
                continue
            from facts import rvalue_places
            pl = [p for s in blk['s'] if s[0] == '=' for p, _ in rvalue_places(s[2])]
            t = blk['t']
            if t[0] == 'call':
                pl += [a[1] for a in t[2] if a[0] in ('c', 'm')]
            elif t[0] == 'switch' and t[1][0] in ('c', 'm'):
                pl.append(t[1][1])
            out |= {f for p in pl for f in F.place_fields(p)}
    return out


def bodies_touching(F, pred):
    """ids of bodies with a place projection through a field `ADT.f`, an
    aggregate, or a callee for which pred(kind, name) holds."""
    from facts import rvalue_places
    out = set()
    for b in F.bodies.values():
        if b.derived or b.kind not in ('fn', 'closure'):
            continue
        hit = False
        for blk in b.blocks:
            if blk['x'] or hit:
                continue
            for s in blk['s']:
                pl = [s[1]]
                if s[0] == '=':
                    pl += [p for p, _ in rvalue_places(s[2])]
                    if s[2][0] == 'agg' and s[2][1] == 'adt' and pred('agg', F.short(s[2][2]) + '::' + s[2][3]):
                        hit = True
                for p in pl:
                    for f in F.place_fields(p):
                        if pred('field', f):
                            hit = True
                if s[0] == '=' and s[2][0] == 'discr' and s[2][2] and pred('discr', F.short(s[2][2])):
                    hit = True
            t = blk['t']
            if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                lid, name = F.callee(t[1][1])
                if pred('call', F.bodies[lid].canon if lid else name):
                    hit = True
                if t[1][1].get('ctor'):
                    p = t[1][1]['fn']
                    if '::' in p:
                        a, v = p.rsplit('::', 1)
                        if pred('agg', F.short(a) + '::' + v):
                            hit = True
                pl = [t[3]] + [a[1] for a in t[2] if a[0] in ('c', 'm')]
                for p in pl:
                    for f in F.place_fields(p):
                        if pred('field', f):
                            hit = True
            elif t[0] == 'switch' and t[1][0] in ('c', 'm'):
                for f in F.place_fields(t[1][1]):
                    if pred('field', f):
                        hit = True
        if hit:
            out.add(b.id)
    return out
