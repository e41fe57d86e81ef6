"""C12: negation and test lists mean what they say."""
from collections import namedtuple
from base import FlowCheck, bodies_touching, Rule
from engine import leaf
from r_caps import IDENT
from r_jumps import INSTRS
from r_run import fetches

TOKEN = 'TokenInfo.token'
BNOT = 'test::Block.is_not'
BALL = 'test::Block.is_all'
TOK = 'lexer::Token'
FETCH = ('next', 'unwrap_next', 'next_if')
EXEMPT = ('Vacation', 'Invalid')      # no test of the language

# neg: (origin, value): is what follows negated (origin P: a test has just been pushed, the list's own negation is not known); need: 'test' or 'comma'; tok: token at hand
# word | jump: pushed after a comma | isall: of the current block | flag: negated in place | neglast: the test pushed last
S = namedtuple('S', 'neg need tok word jump isall flag')
S0 = S(('K', 0), 'test', None, None, None, None, None)
KEPT = ('Not', 'AllOf', 'AnyOf', 'True', 'False')


def negators(F):
    """functions that set the negation of tests of many kinds."""
    out = set()
    for b in F.bodies.values():
        if b.derived or b.kind != 'fn':
            continue
        n = set()
        for blk in b.blocks:
            if blk['x']:
                continue
            for s in blk['s']:
                if s[0] == '=':
                    fs = F.place_fields(s[1])
                    if fs and fs[-1].endswith('.is_not') and fs[-1] != BNOT:
                        n.add(fs[-1])
        if len(n) >= 5:
            out.add(b.id)
    return out


class ListRule(Rule):
    opaque = ('CompilerState', 'test::Block')

    def __init__(self, root, neg):
        self.root = root
        self.negs = neg
        self.lists = 0
        self.tests = 0
        self.commas = 0

    def relevant(self, F):
        return {self.root} | bodies_touching(F, lambda k, n: k in ('field', 'agg') and n.startswith('test::Block')) | {
            b for b in F.bodies if self.negs & F.calls.get(b, set())}

    def carry(self, k, v):
        return leaf(k) in (BNOT, BALL)

    # ------------------------------------------------------------ values of booleans
    def ev(self, st, v):
        if v[0] == 'i':
            return v[1]
        if leaf(v) == BNOT:
            o, x = st.neg
            return None if o == 'P' else x if o != 'nB' or x is None else 1 - x
        if leaf(v) == BALL:
            return st.isall
        if v[0] == 'un' and v[1] == 'Not':
            x = self.ev(st, v[2])
            return None if x is None else 1 - x
        if v[0] == 'bin':
            a, b = v[2], v[3]
            if v[1] in ('Eq', 'Ne'):
                for x, y in ((a, b), (b, a)):
                    if y[0] == 'v' and y[1] == 'Word' and leaf(x) == IDENT and st.word:
                        return int((st.word == y[2]) == (v[1] == 'Eq'))
            x, y = self.ev(st, a), self.ev(st, b)
            if x is not None and y is not None:
                return {'Eq': int(x == y), 'Ne': int(x != y), 'BitXor': x ^ y, 'BitAnd': x & y, 'BitOr': x | y}.get(v[1])
        return None

    def bad(self, E, c, key, line, msg):
        E.report(key, c.bid, line, msg)

    def test_here(self, E, c, st, line):
        if st.need == 'comma':
            self.bad(E, c, 'no comma', line, 'a test is taken although no comma separates it from the one before')
        return st

    # ------------------------------------------------------------ hooks
    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr':
            x = cond[1]
            if leaf(x) == TOKEN and 'peek' not in repr(x)[:4000]:
                if isinstance(val, int):
                    t = E.F.variant_by_discr(TOK, val)
                    if isinstance(st.tok, str) and st.tok != t or isinstance(st.tok, frozenset) and t in st.tok:
                        return None
                    return st._replace(tok=t)
                no = frozenset(E.F.variant_by_discr(TOK, v) for v in val[1])
                if isinstance(st.tok, str):
                    return None if st.tok in no else st
                return st._replace(tok=no | (st.tok or frozenset()))
            if leaf(x) == IDENT and 'peek' not in repr(x)[:4000]:
                if isinstance(val, int):
                    w = E.F.variant_by_discr('Word', val)
                    w = w if w in KEPT else 'other'
                else:
                    w = 'other'
                    if st.word in KEPT:
                        return st if E.F.discr_of('Word', st.word) not in val[1] else None
                    return st
                if st.word and st.word != w:
                    return None
                return st._replace(word=w)
            return st
        if val not in (0, 1):
            return st
        if leaf(cond) == BNOT:
            o, x = st.neg
            if o == 'P':
                return st
            if x is not None:
                return st if (x if o != 'nB' else 1 - x) == val else None
            return st._replace(neg=(o, val if o != 'nB' else 1 - val))
        if leaf(cond) == BALL:
            if st.isall is not None:
                return st if st.isall == val else None
            return st._replace(isall=val)
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'test::Block':
            d = dict(v[3])
            if st.word not in ('AllOf', 'AnyOf'):
                return st
            st = self.test_here(E, c, st, line)
            self.lists += 1
            o, n = st.neg
            a, b = self.ev(st, d['is_all']), self.ev(st, d['is_not'])
            if b is None or n is None or b != n:
                self.bad(E, c, 'negation of a list', line, 'a negated %s does not negate the tests it lists (or one that is not negated does)' % st.word.lower())
            w = int(st.word == 'AllOf')
            if n is None or a is None:
                self.bad(E, c, 'kind of list', line, 'whether all tests of an %s must hold is not settled by its name and negation' % st.word.lower())
            elif a != w ^ n:
                self.bad(E, c, 'kind of list', line, 'a%s %s is compiled as if it were an %s' % (
                    ' negated' if n else 'n', st.word.lower(), 'anyof' if (a ^ n) == 0 else 'allof'))
            x = d['is_not']
            o = 'B' if leaf(x) == BNOT else 'nB' if x[0] == 'un' else 'K'
            return st._replace(neg=(o, n), need='test', isall=None, word='opened')
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = name.rsplit('::', 1)[-1]
        res = k.get('res') or k.get('fn')
        if n in FETCH and 'Tokenizer' in name and c.bid == self.root:
            st = self.fetch(E, c, st, line)
            if st.neg[1] is None:
                # both kinds of lists, one after the other
                return ('states', [st._replace(neg=('B', 0)), st._replace(neg=('B', 1))])
            return ('state', st)
        if res in self.negs:
            if args and args[0][0] == 'loc':
                return [(st._replace(flag=1 - (st.flag or 0)), ('call', '#not', tuple(args), (c.bid, line)))]
            # the value is kept small: only constants matter
            a = args[0] if args else None
            if a is not None and not (a[0] == 'v' and a[2] == 'Test' and dict(a[3])['0'][0] == 'v' and dict(a[3])['0'][2] in ('True', 'False')
                                      or a[0] == 'call' and a[1] == '#not'):
                a = ('s', 'test')
            return [(st, ('call', '#not', (a,), (c.bid, line)))]
        if n == 'push' and args and leaf(args[0]) == INSTRS:
            return ('state', self.pushed(E, c, st, args[1], line))
        return None

    def fetch(self, E, c, st, line):
        t, w = st.tok, st.word
        if t == 'Comma':
            if st.need != 'comma':
                self.bad(E, c, 'stray comma', line, 'a comma is accepted where a test must stand')
            self.commas += 1
            if st.jump is None:
                self.bad(E, c, 'no jump', line, 'no jump leaves the list after a test that decides it')
            st = st._replace(need='test', neg=('B', None), isall=None)
        elif t == 'ParenthesisClose':
            if st.need != 'comma':
                self.bad(E, c, 'empty list', line, 'a list of tests ends where a test must stand')
            st = st._replace(isall=None)
        elif t == 'ParenthesisOpen':
            st = self.test_here(E, c, st, line)
        elif t == 'Identifier' and w == 'Not':
            st = self.test_here(E, c, st, line)
            o, x = st.neg
            st = st._replace(neg=({'K': 'K', 'P': 'K', 'B': 'nB', 'nB': 'B'}[o], None if x is None else 1 - x))
        elif t == 'Identifier' and w == 'opened':
            pass
        elif t is not None and (t == 'Identifier' or t == 'Unknown') and st.need != 'comma' and w in ('AllOf', 'AnyOf'):
            self.bad(E, c, 'list not opened', line, 'an %s is read but no list of tests is begun' % w.lower())
        return st._replace(tok=None, word=None, jump=None, flag=None)

    def pushed(self, E, c, st, v, line):
        neg = 0
        while v[0] == 'call' and v[1] == '#not':
            neg ^= 1
            v = v[2][0]
        neg ^= st.flag or 0
        if v[0] == 'v' and v[1] == 'Instruction' and v[2] in ('Jz', 'Jnz'):
            if st.tok == 'Comma':
                want = {1: 'Jz', 0: 'Jnz', None: None}[st.isall]
                if want is None:
                    self.bad(E, c, 'jump of a list', line, 'the jump after a test of a list does not depend on whether all must hold')
                elif want != v[2]:
                    self.bad(E, c, 'jump of a list', line, 'the tests of %s are left when one %s' % (
                        ('allof', 'holds') if st.isall else ('anyof', 'fails')))
                return st._replace(jump=v[2])
            return st
        if v[0] == 'v' and v[1] == 'Instruction' and v[2] not in ('Test', 'Eval'):
            return st
        st = self.test_here(E, c, st, line)
        self.tests += 1
        o, n = st.neg
        got = neg
        if v[0] == 'v' and v[2] == 'Test':
            t = dict(v[3])['0']
            if t[0] == 'v' and t[2] in ('True', 'False'):
                if st.word not in ('True', 'False'):
                    self.bad(E, c, 'constant test', line, 'another test than true or false is compiled as a constant')
                got = neg ^ int(t[2] != st.word)
        if n is None:
            self.bad(E, c, 'negation dropped', line, 'a test is compiled whether it is negated or not')
        elif got != n:
            self.bad(E, c, 'negation of a test', line, 'a %s test is compiled as %s' % (
                ('negated', 'one that is not') if n else ('plain', 'a negated one')))
        return st._replace(need='comma', neg=('P', 0), flag=None)

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.root and v[0] == 'v' and v[2] == 'Ok' and st.need != 'comma':
            self.bad(E, c, 'no test', line, 'a condition without any test is accepted')
        return st


class NegRule(Rule):
    """a negator: state is (variant of the instruction, variant of the test, negated?)"""

    def __init__(self):
        self.seen = set()

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int):
            a = E.adt_of.get(cond[1])
            if a == 'Instruction':
                return (E.F.variant_by_discr(a, val), st[1], st[2])
            if a == 'Test':
                return (st[0], E.F.variant_by_discr(a, val), st[2])
        return st

    def on_store(self, E, c, m, st, loc, v, line):
        l = leaf(loc)
        if l and l.endswith('.is_not'):
            ok = v == ('i', 1) or v[0] == 'un' and v[1] == 'Not' and leaf(v[2]) == l or v[0] == 'bin' and v[1] == 'BitXor'
            if not ok:
                E.report('negator ' + l, c.bid, line, '%s is given another value than its negation' % l)
            return (st[0], st[1], True)
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'UnaryOperator' and v[2] == 'Not':
            return (st[0], st[1], True)
        if v[1] == 'Test' and v[2] in ('True', 'False') and st[1] in ('True', 'False'):
            return (st[0], st[1], v[2] != st[1])
        return st

    def on_return(self, E, c, m, st, v, line):
        i, t, done = st
        what = t if i in ('Test', None) else i
        if what is None:
            return st
        self.seen.add(what)
        if i == 'Eval' or t:
            need = i == 'Eval' or t not in EXEMPT
            if need and not done:
                E.report('not negated ' + what, c.bid, line, '"not" before this test has no effect: %s' % what)
        return st


class ResultRule(Rule):
    """what a test hands back: state is (test, negation looked at)."""

    def __init__(self, payloads):
        self.payloads = payloads
        self.seen = set()
        self.n = 0

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: n.startswith('TestResult::') or (k == 'discr' and n == 'Test'))

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'Test' and st[0] is None:
            if isinstance(val, int):
                return (E.F.variant_by_discr('Test', val), False)
            return st
        l = leaf(cond)
        if l and l.endswith('.is_not'):
            return (st[0], True)
        return st

    def negated(self, v):
        if leaf(v) and leaf(v).endswith('.is_not'):
            return True
        if v[0] == 'bin' and v[1] in ('BitXor', 'Ne', 'Eq'):
            return self.negated(v[2]) != self.negated(v[3])
        if v[0] == 'un':
            return self.negated(v[2])
        return False

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'TestResult' and v[2] in ('Bool', 'Event'):
            t, looked = st
            x = dict(v[3])['0' if v[2] == 'Bool' else 'is_not']
            if t in ('True', 'False'):
                if x != ('i', int(t == 'True')):
                    E.report('constant ' + t, c.bid, line, 'the test %s does not yield its value' % t.lower())
            elif t in EXEMPT or t is None:
                return st
            else:
                self.n += 1
                self.seen.add(t)
                if v[2] == 'Event' and not (leaf(x) and leaf(x).endswith('.is_not')) and not looked:
                    E.report('event ' + str(t), c.bid, line, 'the answer to the event of this test is not negated with it: %s' % t)
                if v[2] == 'Bool' and not self.negated(x) and not looked:
                    E.report('result ' + str(t), c.bid, line, 'a result of this test is the same whether it is negated or not: %s' % t)
        return st


class AnswerRule(Rule):
    """what becomes of a result and of the caller's answer: state is (input, kind of result, stored)."""
    CELL = 'Context.test_result'

    def __init__(self):
        self.seen = set()

    def relevant(self, F):
        return bodies_touching(F, lambda k, n: k == 'field' and n == self.CELL)

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int):
            a = E.adt_of.get(cond[1])
            if a in ('Input', 'TestResult'):
                w = E.F.variant_by_discr(a, val)
                self.done(E, c, st, line)
                if w in ('True', 'False', 'Bool', 'Event'):
                    return (w, w == 'False')
        return st

    def done(self, E, c, st, line):
        if st[0] and not st[1]:
            E.report('answer ' + st[0], c.bid, line, {
                'True': 'the answer true to a test does not reach the test', 'Bool': 'the result of a test is not noted',
                'Event': 'whether a test that asks the caller is negated is not noted'}[st[0]])

    def on_store(self, E, c, m, st, loc, v, line):
        if leaf(loc) != self.CELL:
            return st
        w = st[0]
        if w is None:
            return st
        self.seen.add(w)
        l = leaf(v)
        ok = {'True': v[0] == 'un' and v[1] == 'Not' and leaf(v[2]) == self.CELL,
              'False': l == self.CELL,
              'Bool': l == 'TestResult::Bool.0', 'Event': l == 'TestResult::Event.is_not'}[w]
        if not ok:
            E.report('answer ' + w, c.bid, line, 'the %s is not what is noted as the result of the test' % (
                'answer of the caller, negated with the test,' if w in ('True', 'False') else 'result of the test'))
        return (w, True)

    def on_call(self, E, c, m, st, name, k, args, line):
        if fetches(E.F, name, k):
            self.done(E, c, st, line)
            return ('state', (None, False))
        return None

    def on_return(self, E, c, m, st, v, line):
        self.done(E, c, st, line)
        return st


class C12(FlowCheck):
    explanation = (
        'Typestate by property simulation over the parser of tests: a running negation (constant, or that of the enclosing '
        'list) is compared with what is compiled - every test is negated exactly when it must be, a negated list swaps '
        'allof and anyof and hands the negation down, the jump after each test fits the kind of its list, and tests stand '
        'between the parentheses with exactly one comma between two. The function that negates a test reaches every kind of '
        'test; every result a test hands back, and the answer to an event, is combined with the negation.')

    def check(self, F):
        res = self.result()
        root = F.fn('CompilerState::parse_test').id
        neg = negators(F)
        r = ListRule(root, neg)
        self.simulate(F, r, [root], S0, res)
        if not neg:
            res.bad('negator', 'src/compiler/grammar/test.rs', 0, 'no function that negates tests was found')
        q = NegRule()
        for n in sorted(neg):
            self.simulate(F, q, [n], (None, None, False), res)
        tv = [v for v in F.variants('Test')]
        for v in tv:
            if v not in q.seen and v not in EXEMPT:
                res.bad('unseen ' + v, 'src/compiler/grammar/test.rs', 0, 'the negation of %s was not found' % v)
        p = ResultRule(tv)
        self.simulate(F, p, [F.fn('Test::exec').id], (None, False), res)
        for v in tv:
            if v not in p.seen and v not in EXEMPT + ('True', 'False'):
                res.bad('unseen result ' + v, 'src/runtime/tests/mod.rs', 0, 'the result of %s was not found' % v)
        a = AnswerRule()
        self.simulate(F, a, [F.fn('Context::run').id], (None, False), res)
        for v in ('True', 'Bool', 'Event'):
            if v not in a.seen:
                res.bad('unseen answer ' + v, 'src/runtime/context.rs', 0, 'the place that notes %s results was not found' % v)
        if not (r.lists and r.tests and r.commas):
            res.bad('unseen lists', 'src/compiler/grammar/test.rs', 0, 'test lists were not found')
        res.ob(len(q.seen) + len(p.seen) + 5, not res.violations)
        res.analysed['kinds of tests'] = len(tv)
        res.analysed['results'] = p.n
        res.samples.append('negation: ' + ', '.join(sorted(q.seen)))
        res.samples.append('result: ' + ', '.join(sorted(p.seen)))
        return res
