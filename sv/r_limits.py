"""C03: the configured limits of the compiler are enforced."""
from base import FlowCheck, bodies_touching, fields_read, Rule
from engine import leaf, contains, fields_in
from r_jumps import calls_in

NEXT = 'tokenizer::Tokenizer as Iterator::next'

def below(cond, val):
    """(limit field, quantity, strict) a decided comparison establishes."""
    if cond[0] != 'bin' or cond[1] not in ('Lt', 'Le', 'Gt', 'Ge') or val not in (0, 1):
        return None
    op, a, b = cond[1], cond[2], cond[3]
    if op in ('Gt', 'Ge'):
        a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
    if not val:
        a, b, op = b, a, {'Lt': 'Le', 'Le': 'Lt'}[op]
    l = leaf(b)
    if l is None or not l.startswith('Compiler.max_'):
        return None
    return l, a, op == 'Lt'


def is_len(q):
    return q[0] == 'call' and (q[1] == 'len' or q[1].endswith('::len'))


def measures(q, field):
    """may q be about `field`? (unknown values may)"""
    if is_len(q):
        l = leaf(q[2][0])
        return l is None or l.endswith(field)
    own = [f for f in fields_in(q) if f.startswith('CompilerState.')]
    return not own or any(f.endswith(field) for f in own)


LIMITS = {
    # what -> (limit, strict, is the quantity plausible)
    'script': ('Compiler.max_script_size', False, is_len),
    'string': ('Compiler.max_string_size', True, lambda q: is_len(q) and measures(q, 'Tokenizer.buf')),
    'block': ('Compiler.max_nested_blocks', True, lambda q: is_len(q) and measures(q, 'CompilerState.block_stack')),
    'test': ('Compiler.max_nested_tests', True, is_len),
    'foreverypart': ('Compiler.max_nested_foreverypart', True,
                     lambda q: q[0] != 'i' and measures(q, 'CompilerState.block_stack')),
    'include': ('Compiler.max_includes', True,
                lambda q: leaf(q) == 'CompilerState.includes_num' or q == ('i', 0) or leaf(q) is None and q[0] != 'i'),
    'global': ('Compiler.max_variable_name_size', True, is_len),
    'header': ('Compiler.max_header_size', False, is_len),
}
TEXT = {
    'script': 'a script is compiled',
    'string': 'a string is accepted',
    'block': 'a block is opened',
    'test': 'a nested test is opened',
    'foreverypart': 'a foreverypart loop is accepted',
    'include': 'an include is accepted',
    'global': 'a global variable is declared',
    'header': 'a constant header value is accepted',
}


class LimitRule(Rule):
    """state: the limits found respected and not yet used up."""

    def __init__(self):
        self.seen = {}
        self.pts = {}

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: n == NEXT or (
            k == 'agg' and n in ('lexer::Token::StringConstant', 'lexer::Token::StringVariable'))
            or (k == 'field' and (n.startswith('Compiler.max_') or n in (
                'CompilerState.vars_global', 'CompilerState.block_stack', 'CompilerState.includes_num'))))

    def on_branch(self, E, c, m, st, cond, val, line):
        b = below(cond, val)
        if b:
            for w, (limit, strict, ok) in LIMITS.items():
                if limit == b[0] and (b[2] or not strict) and ok(b[1]):
                    if w == 'foreverypart':
                        for y in calls_in(b[1]):
                            for a in y[2]:
                                if a[0] == 'clo':
                                    for f in sorted(fields_read(E.F, a[1]) - {self.btype}):
                                        E.report('count leaves out by ' + f, c.bid, line,
                                                 'whether a loop counts as nested depends on ' + f)
                    st = st | {w}
        elif cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Value':
            t = E.F.discr_of('Value', 'Text')
            if (isinstance(val, int) and val != t) or (not isinstance(val, int) and t in val[1]):
                st = st | {'header'}
        return st

    def use(self, E, c, st, line, w):
        ok = w in st
        self.seen.setdefault(w, set()).add(ok)
        self.pts.setdefault(w, set()).add((c.bid, line))
        if not ok:
            E.report('unbounded ' + w, c.bid, line, '%s on a path that never finds it within %s' % (
                TEXT[w], LIMITS[w][0]))
        return st - {w}

    def on_agg(self, E, c, m, st, v, line):
        n = v[2]
        a = v[1]
        if a.endswith('Token') and n in ('StringConstant', 'StringVariable') and c.bid in self.lexer:
            self.use(E, c, st, line, 'string')
        elif a == 'Instruction' and n == 'Include':
            return self.use(E, c, st, line, 'include') | {'uncounted'}
        elif a == 'Instruction' and n == 'ForEveryPart':
            return self.use(E, c, st, line, 'foreverypart')
        elif a == 'Instruction' and n == 'AddHeader':
            val = dict(v[3][0][1][3]).get('value') if v[3] and v[3][0][1][0] == 'v' else None
            if val is None or not (val[0] == 'v' and val[2] != 'Text'):
                return self.use(E, c, st, line, 'header')
        elif a == 'CompilerState':
            self.use(E, c, st, line, 'script')
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        if leaf(loc) == 'CompilerState.includes_num' and loc[0] == 'p':
            old = E.read(m, loc)
            if v[0] == 'bin' and v[1] == 'Add' and v[3][0] == 'i' and v[3][1] >= 1 or (
                    v[0] == 'i' and old[0] == 'i' and v[1] > old[1]) or (
                    v[0] == 'call' and v[1].rsplit('::', 1)[-1] in ('saturating_add', 'wrapping_add')):
                return st - {'uncounted'}
            E.report('includes count', c.bid, line, 'the count of includes is set back')
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if name == NEXT:
            if c.bid == self.root and 'uncounted' in st:
                E.report('uncounted include', c.bid, line, 'an include is compiled without being counted')
            return ('state', st - {'string', 'header'})
        if name == 'std::vec::Vec::push' and args:
            if leaf(args[0]) == 'CompilerState.block_stack':
                return ('state', self.use(E, c, st, line, 'block'))
            t = k.get('targs') or []
            if t and t[0][0] == 'adt' and E.F.short(t[0][1]) == self.tblock:
                return ('state', self.use(E, c, st, line, 'test'))
        if name.rsplit('::', 1)[-1] == 'insert' and args and leaf(args[0]) == 'CompilerState.vars_global':
            return ('state', self.use(E, c, st, line, 'global'))
        return None


class C03(FlowCheck):
    explanation = (
        'Property simulation of Compiler::compile: where a script is taken on, a string token made, a block, a nested '
        'test or a foreverypart loop opened, an include compiled, a global variable declared or a constant header '
        'added, a comparison of the right quantity with the right limit must have been decided, on every path, in the '
        'direction that keeps the quantity within the limit.')
    WHAT = ('script', 'string', 'block', 'test', 'foreverypart', 'include', 'global', 'header')

    def check(self, F):
        res = self.result()
        r = LimitRule()
        root = F.fn('Compiler::compile').id
        r.root = root
        # the element type of the stack parse_test keeps
        r.btype = next(('%s.%s' % (a['short'], f[0]) for a in F.adts.values() if a['local'] and a['short'] == 'instruction::Block'
                        for v in a['variants'] for f in v['fields'] if f[1][0] == 'adt' and F.short(f[1][1]) == 'Word'), None)
        r.tblock = self.test_block(F)
        r.lexer = F.reach([F.fn(NEXT).id])
        self.simulate(F, r, [root], frozenset(), res)
        for w in self.WHAT:
            got = r.seen.get(w)
            if not got:
                res.bad('unseen ' + w, 'src/compiler', 0, 'nothing is recognised that the %s limit applies to' % w)
            res.ob(max(1, len(r.pts.get(w, ()))), bool(got) and False not in got)
            res.samples.append('%s limit: %d places' % (w, len(r.pts.get(w, ()))))
        return res

    def test_block(self, F):
        b = F.fn('CompilerState::parse_test')
        c = set()
        for l in b.locals:
            t = l[0]
            if t[0] == 'adt' and t[1] == 'std::vec::Vec' and t[2] and t[2][0][0] == 'adt' \
                    and F.adts.get(t[2][0][1], {}).get('local') and 'Block' in t[2][0][1]:
                c.add(F.short(t[2][0][1]))
        return next(iter(c)) if len(c) == 1 else '?'
