"""C06: every reference to a local variable is renumbered, and the numbers fit."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in, root, UNIT
from r_jumps import PARTIAL, calls_in
from r_caps import NEXT

NUM, MAXNUM, LOC, CUR, STACK = ('CompilerState.vars_num', 'CompilerState.vars_num_max', 'CompilerState.vars_local',
                                'CompilerState.block', 'CompilerState.block_stack')
NAMES = 'instruction::Block.vars_local'
ID = 'VariableType::Local.0'
ONE = ('first', 'first_mut', 'last_mut', 'split_first_mut', 'split_last_mut', 'get_mut', 'split_at_mut', 'pop') + PARTIAL
TOP = (1 << 64) - 1


def prim_only(F, t, hit, seen):
    """does type t reach the enum variant `hit`?"""
    k = t[0]
    if k == 'adt':
        if any(prim_only(F, x, hit, seen) for x in t[2]):
            return True
        s = F.short(t[1])
        if s == hit:
            return True
        if not F.adts.get(t[1], {}).get('local'):
            return False
        if s in seen:
            return seen[s]
        seen[s] = False
        r = any(prim_only(F, f[1], hit, seen) for v in F.adts[t[1]]['variants'] for f in v['fields'])
        seen[s] = r
        return r
    if k in ('ref', 'ptr'):
        return prim_only(F, t[2], hit, seen)
    if k == 'tuple':
        return any(prim_only(F, x, hit, seen) for x in t[1])
    if k in ('slice', 'array'):
        return prim_only(F, t[1], hit, seen)
    return False


def adts_in(F, t, out):
    k = t[0]
    if k == 'adt':
        out.append(t[1])
        for x in t[2]:
            adts_in(F, x, out)
    elif k in ('ref', 'ptr'):
        adts_in(F, t[2], out)
    elif k == 'tuple':
        for x in t[1]:
            adts_in(F, x, out)
    elif k in ('slice', 'array'):
        adts_in(F, t[1], out)


def reaching_fields(F, root, hit):
    """(owner.field, file) of every field below type `root` that can hold `hit`."""
    # recursion through a type under examination needs a fixpoint
    good = {hit}
    ch = True

    def has(t):
        k = t[0]
        if k == 'adt':
            return F.short(t[1]) in good or any(has(x) for x in t[2])
        if k in ('ref', 'ptr'):
            return has(t[2])
        if k == 'tuple':
            return any(has(x) for x in t[1])
        if k in ('slice', 'array'):
            return has(t[1])
        return False
    while ch:
        ch = False
        for a in F.adts.values():
            if a['local'] and a['short'] not in good:
                if any(has(f[1]) for v in a['variants'] for f in v['fields']):
                    good.add(a['short'])
                    ch = True
    out = {}
    seen = set()
    work = [F.adt(root)['path']]
    while work:
        p = work.pop()
        if p in seen or p not in F.adts or not F.adts[p]['local']:
            continue
        seen.add(p)
        a = F.adts[p]
        if a['short'] == hit:
            continue
        for v in a['variants']:
            o = a['short'] + ('::' + v['name'] if a['enum'] else '')
            for f in v['fields']:
                param = f[1][0] == 'param'
                sub = []
                adts_in(F, f[1], sub)
                work += sub
                if has(f[1]) or param:
                    out[o + '.' + f[0]] = p
    return out


def lin(v):
    """v as a sum of terms: {term: factor}."""
    if v[0] == 'i':
        return {1: v[1]}
    out = {}

    def add(x, f):
        for t, n in lin(x).items():
            out[t] = out.get(t, 0) + f * n
    if v[0] == 'bin' and v[1][:3] in ('Add', 'Sub'):
        add(v[2], 1)
        add(v[3], 1 if v[1].startswith('Add') else -1)
    elif v[0] == 'un' and v[1] == 'Neg':
        add(v[2], -1)
    elif v[0] == 'un' and v[1] == 'Not':
        out[1] = TOP
        add(v[2], -1)
    elif v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('wrapping_add', 'wrapping_sub', 'saturating_add', 'saturating_sub') and len(v[2]) == 2:
        add(v[2][0], 1)
        add(v[2][1], 1 if v[1].endswith('add') else -1)
    elif v[0] == 'p' and v[2] == '0' and v[1][0] == 'bin':
        add(v[1], 1)
    else:
        out[v] = 1
    out = {t: n for t, n in out.items() if n}
    if 1 in out:
        out[1] = (out[1] + (1 << 63)) % (1 << 64) - (1 << 63)
        if not out[1]:
            del out[1]
    return out


class VisitRule(Rule):
    """one function of the renumbering pass.
    state: (variants it may be, fields visited, loop: None | 'asked' | 'elem' | 'seen' | 'end', is the number provisional?)"""

    def __init__(self, F, own, visitors, want):
        self.own = own
        self.visitors = visitors
        self.want = want
        t = F.bodies[own].locals[1][0]
        while t[0] in ('ref', 'ptr'):
            t = t[2]
        self.self = F.adts.get(t[1]) if t[0] == 'adt' else None
        if self.self is not None and not self.self['local']:
            self.self = None
        self.over = F.adt('Instruction') if self.self and self.self['short'] == 'CompilerState' else None
        self.types = {}
        for a in F.adts.values():
            if a['local']:
                for v in a['variants']:
                    for f in v['fields']:
                        self.types[a['short'] + ('::' + v['name'] if a['enum'] else '') + '.' + f[0]] = f[1]
        self.F = F
        self.loops = 0

    def relevant(self, F):
        return {self.own} | {b.id for b in F.bodies.values() if b.kind == 'closure' and F.root_fn(b.id) == self.own}

    def fields(self, adt, variant=None):
        out = set()
        for v in adt['variants']:
            if variant is None or v['name'] == variant:
                o = adt['short'] + ('::' + v['name'] if adt['enum'] else '')
                out |= {o + '.' + f[0] for f in v['fields'] if o + '.' + f[0] in self.want}
        return out

    def lacking(self, f, done):
        """fields below f that were passed over."""
        if f in done:
            return set()
        t = self.types.get(f)
        a = self.F.adts.get(t[1]) if t and t[0] == 'adt' else None
        if a and a['local'] and not a['enum']:
            sub = self.fields(a)
            if sub:
                return {x for g in sub for x in self.lacking(g, done)}
        return {f}

    def settle(self, E, c, st, line, adt):
        vs, done, loop, prov = st
        if adt is None:
            return
        names = [v['name'] for v in adt['variants']] if adt['enum'] else [None]
        for n in names:
            if vs is not None and n is not None and n not in vs:
                continue
            for f in self.fields(adt, n):
                for x in self.lacking(f, done):
                    E.report('passed over ' + x, c.bid, line, 'a local variable in %s may keep its provisional number' % x)
        if adt['short'] == 'VariableType' and ID not in done and 'Local' in (vs or ('Local',)) and prov is not False:
            E.report('number kept', c.bid, line, 'the number of a variable that has a provisional one may stay')

    def elem(self, v):
        while v[0] == 'p' and v[2] == 'Option::Some.0':
            v = v[1]
        return v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('next', 'next_back')

    def narrow(self, F, vs, adt, val):
        names = [v['name'] for v in adt['variants']]
        if isinstance(val, int):
            w = F.variant_by_discr(adt['short'], val)
            keep = {w}
        else:
            keep = set(names) - {F.variant_by_discr(adt['short'], x) for x in val[1]}
        return frozenset(keep if vs is None else keep & vs)

    def on_branch(self, E, c, m, st, cond, val, line):
        vs, done, loop, prov = st
        if cond[0] == 'discr':
            x = cond[1]
            if x[0] == 'call' and self.elem(x):
                if loop != 'asked':
                    return None if loop == 'end' and val == 1 else st
                return (vs, done, 'elem' if val == 1 else 'end', prov)
            a = E.adt_of.get(x)
            adt = next((y for y in (self.self, self.over) if y and a in (y['short'], y['path'])), None)
            if adt and (adt is self.over and self.elem(x) or adt is self.self and x[0] == 'arg'):
                vs = self.narrow(E.F, vs, adt, val)
                return (vs, done, loop, prov) if vs else None
            f = leaf(x)
            if f in self.want:
                adt = next((y for y in E.F.adts.values() if a in (y['short'], y['path'])), None)
                if adt is None:
                    return (vs, done | {f}, loop, prov) if val == 0 else st
                if not any(self.fields(adt, n) for n in self.narrow(E.F, None, adt, val)):
                    return (vs, done | {f}, loop, prov)
            elif x[0] == 'arg' and self.self is None and val == 0:
                return (vs, done | {'*'}, loop, prov)
            return st
        if cond[0] == 'bin' and cond[1] in ('Gt', 'Ge', 'Lt', 'Le') and val in (0, 1):
            l, r = leaf(cond[2]) == ID, leaf(cond[3]) == ID
            if l != r:
                return (vs, done, loop, (cond[1][0] == 'G') == (l == (val == 1)))
            if self.self is None and self.over is None:
                l, r = (any(y[1].rsplit('::', 1)[-1] == 'len' and root(y[2][0])[0] == 'arg' for y in calls_in(x) if y[2]) for x in cond[2:4])
                if l != r and cond[1] in ('Lt', 'Gt', 'Le', 'Ge'):
                    if loop == 'elem':
                        E.report('element passed over', c.bid, line, 'an element of a list is not renumbered')
                    return (vs, done, 'elem' if (cond[1] in ('Lt', 'Le')) == (r == (val == 1)) else 'end', prov)
        return st

    def visit(self, st, v):
        vs, done, loop, prov = st
        fs = {f for f in fields_in(v) if f in self.want}
        whole = self.elem(v)
        if whole and loop == 'elem':
            return (vs, done, 'seen', prov)
        if any(y[1].rsplit('::', 1)[-1] in ('index', 'index_mut') and root(y[2][0])[0] == 'arg' for y in calls_in(v)) or v[0] == 'arg' or self.self is None and root(v)[0] == 'arg' or v[0] == 'p' and v[2] == 'Option::Some.0' and v[1][0] == 'arg':
            if loop == 'elem':
                return (vs, done, 'seen', prov)
            fs = fs | {'*'}
        return (vs, done | fs, loop, prov)

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        lid = E.F.callee(k)[0] if 'fn' in k else None
        if lid in self.visitors and lid != self.own or n == 'map_local_vars':
            return [(self.visit(st, args[0]), UNIT)] if args else None
        vs, done, loop, prov = st
        if n in ('next', 'next_back') and args:
            if loop == 'elem' and self.over is None:
                E.report('element passed over', c.bid, line, 'an element of a list is not renumbered')
            if loop in ('elem', 'seen') and self.over is not None:
                self.settle(E, c, st, line, self.over)
            self.loops += 1
            return ('state', (None if self.over else vs, frozenset() if self.over else done, 'asked', None))
        if n in ('index', 'index_mut') and args and root(args[0])[0] == 'arg' and self.self is None:
            return [(st, ('p', args[0], 'Option::Some.0'))]
        if n in ONE:
            E.report('partial', c.bid, line, '%s leaves out elements of what is to be renumbered' % n)
        if n == 'for_each' and args:
            return [(self.visit(st, args[0])[:2] + ('end', None), UNIT)]
        return None

    def on_store(self, E, c, m, st, loc, v, line):
        vs, done, loop, prov = st
        if leaf(loc) != ID:
            return st
        x = lin(v)
        ids = [t for t in x if isinstance(t, tuple) and leaf(t) == ID]
        args = [t for t in x if isinstance(t, tuple) and t[0] == 'arg']
        if not (len(x) == 3 and len(ids) == 1 and len(args) == 1 and x[ids[0]] == -1 and x[args[0]] == 1 and x.get(1) == -1):
            E.report('new number', c.bid, line, 'the new number of a local variable is not its provisional one counted from the base')
        if prov is False:
            E.report('number changed', c.bid, line, 'a variable that has no provisional number is given another one')
        return (vs, done | {ID}, loop, prov)

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        vs, done, loop, prov = st
        if loop in ('asked', 'elem', 'seen'):
            E.report('list left early', c.bid, line, 'the renumbering of a list ends before its last element')
        if self.over is None and self.self is not None:
            self.settle(E, c, st, line, self.self)
        elif self.over is None and '*' not in done and loop is None:
            E.report('content passed over', c.bid, line, 'what is inside is not renumbered')
        elif self.over is not None and loop is None:
            E.report('no loop', c.bid, line, 'the instructions are not gone through')
        return st


class NumberRule(Rule):
    """numbers of local variables while a script is compiled.
    state: (numbers given and not settled, highest number noted?, no provisional number?, base of the renumbering)"""
    opaque = ('CompilerState', 'instruction::Block')

    def __init__(self, root, visitors, rel):
        self.root = root
        self.visitors = visitors
        self.rel = rel
        self.seen = set()

    def relevant(self, F):
        return self.rel

    def split_on(self, b):
        if b.id != self.root:
            return ()
        return [i for i, l in enumerate(b.locals) if l[1] is not None and i > b.argc and l[0] == ['prim', 'usize']]

    def on_branch(self, E, c, m, st, cond, val, line):
        pend, noted, none, base = st
        if cond[0] == 'discr' and val == 0 and cond[1][0] == 'call' and cond[1][1].endswith('first_mut') and leaf(cond[1][2][0]) == STACK:
            return None     # provisional numbers are only given inside a block
        if cond[0] == 'bin' and cond[1] in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne') and val in (0, 1):
            op, x, y = cond[1:4]
            if leaf(y) in (LOC, NUM) and leaf(x) in (None, MAXNUM):
                op, x, y = {'Gt': 'Lt', 'Ge': 'Le', 'Lt': 'Gt', 'Le': 'Ge'}.get(op, op), y, x
            if leaf(x) == LOC and y[0] == 'i':
                return (pend, noted, (op, y[1], val) in (('Gt', 0, 0), ('Ne', 0, 0), ('Eq', 0, 1), ('Ge', 1, 0), ('Lt', 1, 1), ('Le', 0, 1)), base)
            if leaf(x) == NUM and leaf(y) == MAXNUM:
                if (op, val) in (('Gt', 0), ('Ge', 0), ('Lt', 1), ('Le', 1)):
                    return (pend, True, none, base)
        return st

    def top(self, v):
        """is v the highest number of slots in use at any point?"""
        return v[0] == 'call' and v[1].rsplit('::', 1)[-1] == 'max' and {leaf(x) for x in v[2]} == {NUM, MAXNUM}

    def on_call(self, E, c, m, st, name, k, args, line):
        pend, noted, none, base = st
        n = name.rsplit('::', 1)[-1]
        if name == NEXT:
            return ('state', self.settle(E, c, st, line))
        if E.F.callee(k)[0] in self.visitors if 'fn' in k else False:
            self.seen.add('base')
            v = args[1]
            if not (self.top(v) or leaf(v) == MAXNUM and noted):
                E.report('base', c.bid, line, 'provisional numbers are not counted from the highest number of variables in use')
            return [((pend, noted, none, v), UNIT)]
        if n == 'insert' and len(args) == 3 and leaf(args[0]) == NAMES:
            x = lin(args[2])
            ids = {leaf(t) if isinstance(t, tuple) else t: f for t, f in x.items()}
            if ids == {NUM: 1}:
                self.seen.add('number')
                if leaf(args[0][1]) != CUR:
                    E.report('block of a variable', c.bid, line, 'a variable is made known in another block than that whose end gives its number back')
                return ('state', (pend ^ {'num'}, noted, none, base))
            if ids == {1: -1, LOC: -1}:
                self.seen.add('provisional')
                if leaf(args[0][1]) == CUR or not any(y[1].rsplit('::', 1)[-1] in ('first_mut', 'get_mut', 'index_mut', 'next') and (
                        len(y[2]) < 2 or y[2][1] == ('i', 0)) for y in calls_in(args[0])):
                    E.report('block of a provisional number', c.bid, line, 'a variable with a provisional number is made known in a block that ends before the script')
                return ('state', (pend ^ {'prov'}, noted, none, base))
            E.report('number', c.bid, line, 'a variable gets a number that another one may have')
        return None

    def settle(self, E, c, st, line):
        for p in sorted(st[0]):
            E.report('unsettled ' + p, c.bid, line, 'a number is given to a variable without being counted, or counted without being given')
        return (frozenset(), False, None, None)

    def on_store(self, E, c, m, st, loc, v, line):
        pend, noted, none, base = st
        l = leaf(loc)
        if l == MAXNUM and (leaf(v) == NUM or self.top(v)):
            return (pend, True, none, base)
        if l == LOC and v != ('i', 0):
            if {leaf(t) if isinstance(t, tuple) else t: f for t, f in lin(v).items()} != {LOC: 1, 1: 1}:
                E.report('provisional numbers', c.bid, line, 'provisional numbers are not counted one by one')
            return (pend ^ {'prov'}, noted, none, base)
        if l == NUM and v != ('i', 0):
            x = {leaf(t) if isinstance(t, tuple) and t[0] == 'p' else t: f for t, f in lin(v).items()}
            if x == {NUM: 1, 1: 1}:
                return (pend ^ {'num'}, False, none, base)
            rest = [(t, f) for t, f in x.items() if t != NUM]
            if not (x.get(NUM) == 1 and len(rest) == 1 and rest[0][1] == -1 and rest[0][0][0] == 'call' and rest[0][0][1].endswith('len') and
                    leaf(rest[0][0][2][0]) == NAMES and leaf(rest[0][0][2][0][1]) == CUR):
                E.report('numbers given back', c.bid, line, 'a block gives back another number of variables than it has')
            self.seen.add('given back')
            if not noted:
                E.report('highest number', c.bid, line, 'numbers are given back without noting how many were in use')
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] != 'Sieve':
            return st
        pend, noted, none, base = st
        x = dict(v[3])['num_vars']
        while x[0] == 'cast':
            x = x[-1]
        self.seen.add('total')
        if base is None:
            if none is not True:
                E.report('not renumbered', c.bid, line, 'a script is handed out with provisional numbers')
            good = self.top(x)
        else:
            d = lin(x)
            for t, f in lin(base).items():
                d[t] = d.get(t, 0) - f
            good = {leaf(t) if isinstance(t, tuple) else t: f for t, f in d.items() if f} == {LOC: 1}
        if not good and not vague(x):
            E.report('total', c.bid, line, 'a script is handed out with another number of variables than it uses')
        return st


def vague(v):
    return v[0] in ('ph', 'r', 'u', 'hv')


class C06(FlowCheck):
    explanation = (
        'Type-directed coverage: every field below the Instruction type through which a local-variable reference can be '
        'reached must be written or mutably borrowed by the renumbering pass (the functions reachable from it), and the '
        'pass must rewrite the number of a local variable. The field list is computed from the type definitions, so a '
        'new payload field is covered by construction. Property simulation of the pass: on every path each such field of '
        'the variant at hand is visited, every list is gone through to its end, and the new number is the provisional one '
        'counted from the base. Property simulation of compiling: provisional numbers are given one by one in the outermost '
        'block, others by the block that gives them back; the base is the highest number ever in use, the pass runs whenever '
        'there is a provisional number, and the script asks for as many variables as there are numbers.')

    def check(self, F):
        res = self.result()
        root = F.fn('CompilerState::map_local_vars')
        W = F.writes(root.id)
        reach = F.reach([root.id])
        res.functions = len(reach)
        want = reaching_fields(F, 'Instruction', 'VariableType')
        hit = 'VariableType::Local.0'
        for f in sorted(want):
            good = f in W
            res.ob(1, good)
            res.samples.append('%s: %s' % (f, 'renumbered' if good else 'skipped'))
            if not good:
                res.bad('skipped ' + f, root.file, root.line,
                        'a local variable in %s keeps its provisional number' % f)
        res.ob(1, hit in W)
        if hit not in W:
            res.bad('number', root.file, root.line, 'the pass never assigns the number of a local variable')
        visitors = [b for b in reach if F.bodies[b].kind == 'fn' and F.bodies[b].canon.endswith('map_local_vars')]
        for v in sorted(visitors):
            r = VisitRule(F, v, visitors, want)
            self.simulate(F, r, [v], (None, frozenset(), None, None), res)
        rel = bodies_touching(F, lambda k, n: k == 'field' and n in (NUM, MAXNUM, LOC) or k == 'agg' and n == 'Sieve::Sieve')
        comp = F.fn('Compiler::compile').id
        r = NumberRule(comp, visitors, rel | {comp})
        self.simulate(F, r, [comp], (frozenset(), False, None, None), res)
        for w in ('base', 'number', 'provisional', 'given back', 'total'):
            if w not in r.seen:
                res.bad('unseen ' + w, root.file, root.line, 'the %s of local variables was not found' % w)
            res.ob(1, w in r.seen)
        called = [b for b in F.all_fns() if root.id in F.calls[b.id]]
        comp = F.reach([F.fn('Compiler::compile').id])
        ok = root.id in comp
        res.ob(1, ok)
        if not ok:
            res.bad('uncalled', root.file, root.line, 'Compiler::compile never runs the renumbering pass')
        return res
