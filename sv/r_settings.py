"""R14: what the embedder sets is what applies."""
import difflib
from collections import namedtuple
from base import FlowCheck, Rule
from engine import leaf, root
from r_expr import args_of

TYPES = ('Runtime', 'Compiler', 'Context')
PREFIX = ('set_', 'with_', 'unset_', 'without_')
ADD = ('insert', 'push', 'extend', 'push_back', 'push_str', 'append')
REMOVE = ('remove', 'clear', 'retain', 'swap_remove', 'take', 'drain')
OTHER = ('min', 'max', 'clamp', 'pow', 'trim', 'trim_matches', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase',
         'to_ascii_uppercase', 'make_ascii_lowercase', 'make_ascii_uppercase', 'rem', 'not', 'neg', 'truncate', 'unwrap_or', 'rev', 'skip', 'or_insert',
         'or_insert_with', 'get_or_insert', 'get_or_insert_with', 'is_empty', 'len', 'abs', 'leading_zeros', 'swap_bytes')

# effects: what was changed | refused: could the value not be understood
S = namedtuple('S', 'effects refused')
S0 = S((), False)


def short(n):
    return n.rsplit('::', 1)[-1]


def constant(v):
    return v[0] in ('i', 's', 'b', 'k') or v[0] == 'v' and all(constant(x) for _, x in v[3]) or \
        v[0] == 'call' and all(constant(x) for x in v[2] or ())


def bent(v):
    """is a value computed with, rather than only converted?"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ('bin', 'un', 'ph') and v[0] != 'ph':
        return True
    if v[0] == 'call' and (short(v[1]) in OTHER or short(v[1]).split('_')[0] in ('saturating', 'wrapping', 'checked', 'overflowing')):
        return True
    return any(bent(x) for x in v if isinstance(x, tuple))


class SetRule(Rule):
    opaque = ()

    def __init__(self, own, adt, helpers, scalar):
        self.own, self.adt, self.helpers = own, adt, helpers
        self.paths = set()
        self.scalar = scalar
        self.vague = False
        self.lines = {}

    def relevant(self, F):
        return {self.own} | self.helpers

    def field(self, v):
        """the setting that a place is, or is in."""
        while v[0] in ('p', 'idx', 'old', 'try'):
            if v[0] == 'p' and v[2].rsplit('.', 1)[0] == self.adt:
                return v[2]
            v = v[1]
        return None

    def add(self, st, e, line):
        self.lines[e] = line
        return st._replace(effects=(st.effects + (e,))[:4])

    def order(self, xs):
        return tuple(tuple(i for i in args_of(x, self.own) if i) or (() if constant(x) else ('?',)) for x in xs)

    def on_store(self, E, c, m, st, loc, v, line):
        f = self.field(loc)
        if f:
            return self.add(st, ('store', f, self.order([v]), bent(v) or self.scalar and v[0] == 'ph'), line)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'next':
            st2 = st._replace(refused=True)
            return ('state', st2) if st2 != st else None
        if any(x[0] == 'clo' and (0 in args_of(x, self.own) or any(self.field(y) for y in x[2])) for x in args):
            self.vague = True
        if args and n in ADD + REMOVE:
            f = self.field(args[0])
            if f:
                xs = args[1:]
                if len(xs) == 1 and xs[0][0] == 't':
                    xs = list(xs[0][1])
                if n in REMOVE and (not xs or xs[0][0] == 'v'):
                    return None
                return ('state', self.add(st, ('add' if n in ADD else 'remove', f, self.order(xs), any(bent(x) for x in xs)), line))
        return None

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and any(args_of(cond, self.own)):
            return st._replace(refused=True)
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            if v[0] == 'v' and v[1] == self.adt:
                for f, x in v[3]:
                    f = '%s.%s' % (self.adt, f.rsplit('.', 1)[-1])
                    if self.field(x) != f:
                        st = self.add(st, ('store', f, self.order([x]), bent(x) or self.scalar and x[0] == 'ph'), line)
            self.paths.add(st)
        return st


def group(n):
    for p in PREFIX:
        if n.startswith(p):
            return n[len(p):], p
    return None


def same(a, b):
    return a.rstrip('s') == b.rstrip('s') or a.rstrip('s').replace('ie', 'y') == b.rstrip('s').replace('ie', 'y') or \
        a.replace('ies', 'y') == b or b.replace('ies', 'y') == a or difflib.SequenceMatcher(None, a, b).ratio() > 0.85 and abs(len(a) - len(b)) < 2


class R14(FlowCheck):
    explanation = (
        'Every public method of the runtime, the compiler and the context of a run with which the embedder sets something is run through on the '
        'symbolic engine, and what it changes is read off: which setting is stored to, added to or removed from, from which of the method\'s parameters in which order, '
        'and whether the value is computed with. On every path exactly one setting has to change (none only where the value cannot be '
        'understood), from all parameters in their order and without arithmetic or comparison; the forms that change in place and that hand the '
        'object on have to do the same; and two different settings must not share a place.')

    def check(self, F):
        res = self.result()
        found = {}
        for b in F.bodies.values():
            if b.kind != 'fn' or b.derived or not b.exported or '::' not in b.canon:
                continue
            t, n = b.canon.rsplit('::', 1)
            if t in TYPES and group(n):
                found[t, n] = b
        ids = {b.id for b in found.values()}
        effects = {}
        for (t, n), b in sorted(found.items()):
            own = {x for x in ids if F.bodies[x].canon.split('::')[0] == t}
            r = SetRule(b.id, t, own, all(b.locals[i][0][0] == 'prim' for i in range(2, b.argc + 1)))
            self.simulate(F, r, [b.id], S0, res)
            g, p = group(n)
            ok = True

            def bad(what, msg, line=None):
                res.bad('%s %s' % (b.canon, what), b.file, line or b.line, '%s: %s' % (b.canon, msg))
                return False
            done = {x.effects for x in r.paths}
            if not any(done) and not r.vague:
                ok = bad('nothing', 'nothing is set')
            for x in r.paths:
                if not x.effects and not x.refused and not r.vague:
                    ok = bad('ignored', 'a value is ignored')
                fs = {e[1] for e in x.effects}
                if len(fs) > 1:
                    ok = bad('several', 'more than one setting is changed', r.lines[x.effects[0]])
                for e in x.effects:
                    if e[3]:
                        ok = bad('computed', 'another value is set than the one that is given', r.lines[e])
                    if (e[0] == 'remove') != (p in ('unset_', 'without_')):
                        ok = bad('direction', 'a setting is removed instead of added, or added instead of removed', r.lines[e])
                    flat = [i for o in e[2] for i in o]
                    want = list(range(1, b.argc))
                    if '?' not in flat and e[0] != 'remove' and flat != want and not (e[0] == 'store' and sorted(flat) == want):
                        ok = bad('parameters', 'another value is set than the one that is given', r.lines[e])
            if len({tuple(sorted({e[1] for e in d})) for d in done if d}) > 1:
                ok = bad('places', 'which setting is changed depends on the value')
            effects[t, n] = {(e[0], e[1]) for d in done for e in d}
            res.ob(1, ok)
        for (t, n), b in sorted(found.items()):
            g, p = group(n)
            twin = {'set_': 'with_', 'unset_': 'without_'}.get(p)
            other = found.get((t, (twin or '') + g)) if twin else None
            if other is not None:
                good = effects[t, n] == effects[t, twin + g] or not effects[t, n] or not effects[t, twin + g]
                res.ob(1, good)
                if not good:
                    res.bad('%s %s' % (b.canon, 'twin'), b.file, other.line, '%s: another setting is changed than by %s' % (other.canon, b.canon))
            for (t2, n2), b2 in sorted(found.items()):
                g2, p2 = group(n2)
                if t2 == t and n < n2 and not same(g, g2):
                    if {p, p2} == {'set_', 'with_'} and not {(t, 'with_' + g), (t, 'set_' + g), (t, 'with_' + g2), (t, 'set_' + g2)} - {(t, n), (t, n2)} & set(found):
                        continue
                    fs = {e[1] for e in effects[t, n] & effects[t, n2]}
                    res.ob(1, not fs)
                    if fs:
                        res.bad('%s shares %s' % (b.canon, g2), b.file, b2.line, '%s: the same place is set by %s, which is another setting' % (b2.canon, b.canon))
        if len(found) < 30:
            res.bad('settings', 'src/runtime/mod.rs', 1, 'the settings are not found')
        return res
