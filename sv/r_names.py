"""C10: the name of a variable means the same variable in any case."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in

MAPS = ('instruction::Block.vars_local', 'CompilerState.vars_global')
GLOBALS = 'CompilerState.vars_global'
NAMED = ('Global', 'Environment')
LOOK = ('get', 'get_mut', 'contains_key', 'contains', 'insert', 'entry', 'remove', 'get_or_insert', 'get_key_value', 'take', 'replace')
FOLD = ('to_lowercase', 'to_ascii_lowercase', 'make_ascii_lowercase')
VT = 'VariableType'


def folded(v):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'call' and v[1] == '#folded':
        return True
    return any(folded(y) for y in v if isinstance(y, tuple))


def of_arg(v, bid):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'arg' and v[1] == bid:
        return True
    return any(of_arg(y, bid) for y in v if isinstance(y, tuple))


def constant(v):
    return v[0] == 's' and isinstance(v[1], str) and v[1] == v[1].lower() or v[0] == 'call' and v[2] and constant(v[2][0])


class NameRule(Rule):
    opaque = ('CompilerState',)

    def __init__(self, maps):
        self.maps = maps
        self.keys = set()
        self.names = set()
        self.locals = set()
        self.roots = ()
        self.up = set()

    def relevant(self, F):
        return self.rel

    def see(self, E, c, v, line, what):
        if folded(v) or constant(v):
            return
        for r in self.roots:
            if of_arg(v, r):
                self.up.add(r)
        E.report('%s %s' % (what[0], E.F.bodies[c.bid].canon.rsplit('::', 1)[-1]), c.bid, line, what[1])

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        if n in FOLD and args:
            return [(st, ('call', '#folded', (), (c.bid, line)))]
        if len(args) > 1 and leaf(args[0]) in self.maps and n in LOOK:
            self.keys.add((c.bid, line))
            self.see(E, c, args[1], line, ('key', 'a variable is looked up or noted under a name that is not lowercased'))
        return None

    def on_branch(self, E, c, m, st, cond, val, line):
        x, full = cond, val == 1
        if x[0] == 'discr':
            x = x[1]
        elif x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('is_none', 'is_some') and x[2]:
            full = full == (x[1].rsplit('::', 1)[-1] == 'is_some')
            x = x[2][0]
        if x[0] == 'call' and x[2] and leaf(x[2][0]) == GLOBALS and val in (0, 1):
            return None if st in (True, False) and st != full else full
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == VT and v[2] == 'Local':
            self.locals.add((c.bid, line))
            if st is not False:
                E.report('local %s' % E.F.bodies[c.bid].canon.rsplit('::', 1)[-1], c.bid, line,
                         'a name may be taken for a local variable although it was declared global')
        if v[1] == VT and v[2] == 'Global' and st is False and 'split' not in repr(v)[:2000]:
            E.report('global %s' % E.F.bodies[c.bid].canon.rsplit('::', 1)[-1], c.bid, line,
                     'a name that was not declared global is taken for a global variable')
        if v[1] == VT and v[2] in NAMED:
            self.names.add((c.bid, line))
            self.see(E, c, dict(v[3])['0'], line, ('name', 'a reference is compiled to a name that is not lowercased'))
        return st

    def on_return(self, E, c, m, st, v, line):
        # what was found of one name says nothing of the next
        return '-' if "'%s'" % VT in repr(v)[:4000] else st


class C10(FlowCheck):
    explanation = (
        'All functions that look up or note the names of variables, or compile a reference to a named one, are simulated; where the '
        'name is a parameter, so are their callers, up to where the name is read. Each name used as a key, and each name stored in '
        'a reference, must come from a conversion to lower case (or be a constant in lower case). A reference to a local variable is compiled only '
        'where the name was found not to be declared global.')

    def check(self, F):
        res = self.result()
        touch = bodies_touching(F, lambda k, n: k == 'field' and n in MAPS or k == 'agg' and n in (VT + '::Global', VT + '::Environment'))
        r = NameRule(set(MAPS))
        r.rel = set(touch)
        roots = set(touch)
        for _ in range(12):
            r.roots = sorted(roots)
            r.up = set()
            e = self.simulate(F, r, sorted(roots), '-', None)
            up = {b for b in r.up if any(b in F.calls.get(a, ()) for a in F.bodies)}
            if not up:
                break
            callers = {a for a in F.bodies if F.calls.get(a, set()) & up}
            r.rel |= callers
            roots = (roots - up) | callers
        r.keys, r.names, r.locals = set(), set(), set()
        self.simulate(F, r, sorted(roots), '-', res)
        if len(r.keys) < 4 or len(r.names) < 4 or not r.locals:
            res.bad('unseen names', 'src/compiler/grammar/instruction.rs', 0, 'where the names of variables are noted was not found')
        res.ob(len(r.keys) + len(r.names) + len(r.locals), not res.violations)
        res.analysed['uses of a name as key'] = len(r.keys)
        res.analysed['references by name'] = len(r.names)
        res.analysed['references to local variables'] = len(r.locals)
        for b, n in sorted(r.keys | r.names):
            res.samples.append('%s:%s' % (F.bodies[b].canon, n))
        return res
