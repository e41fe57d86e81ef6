"""R17: modifiers change a text as they say, in their order."""
from base import FlowCheck, Rule
from engine import contains, fields_in, leaf
from r_refs import calls, short
from r_args import TAG
from r_flags import FoundRule, flat, contains_next, plain

WILD = frozenset(map(ord, '*\\?'))
REGEX = frozenset(map(ord, '*\\?.[](){}+|^$'))
URL = frozenset(map(ord, '-._~'))
NAMES = ('Lower', 'Upper', 'LowerFirst', 'UpperFirst', 'QuoteWildcard', 'QuoteRegex', 'Length', 'EncodeUrl')
RANK = {'Lower': 4, 'Upper': 4, 'Replace': 4, 'LowerFirst': 3, 'UpperFirst': 3, 'QuoteWildcard': 2, 'QuoteRegex': 2, 'EncodeUrl': 1, 'Length': 0}


class ApplyRule(Rule):
    """state: (modifier, is a character at hand?, what it is known not to be, what it may be, is it the first?, is there room?, is it a letter or digit?, what was put)"""
    START = (False, frozenset(), None, None, None, None, ())

    def __init__(self, own):
        self.own = own
        self.seen = set()
        self.n = 0

    def relevant(self, F):
        return {self.own}

    def kind(self, E, c, v):
        t = str(E.bi(c.bid).b.locals[v[2]][0]) if v[0] == 'loc' and v[1] == c.bid else ''
        return 'outer' if 'Chars' in t else 'inner'

    def char(self, v):
        """is v the character at hand? (of the outer iterator)"""
        if v[0] == 'p' and v[2] in ('.1', '1'):
            v = v[1]
        return v[0] == 'p' and v[2] == 'Option::Some.0' and v[1][0] == 'call' and short(v[1][1]) == 'next'

    def judge(self, E, c, st, line, end=False):
        mod, hand, out, isin, first, room, alnum, ops = st
        if not hand or not mod:
            return
        self.n += 1
        if alnum == '?':
            return                                          # compared with ranges
        if room is False:
            if ops:
                E.report('room %s' % mod, c.bid, line, 'a character is put in without room')
            return
        if mod in ('LowerFirst', 'UpperFirst'):
            case = 'to_lowercase' if mod == 'LowerFirst' else 'to_uppercase'
            if first is True and not set(ops) <= {case, 'inner', 'owed'} or first is True and case not in ops or first is True and ops[-1:] == ('owed',):
                E.report('first %s' % mod, c.bid, line, 'the first character does not get the case that is named')
            if first == 'other':
                E.report('first %s' % mod, c.bid, line, 'another character than the first gets the case that is named')
            if first is False and ops != ('char',):
                E.report('rest %s' % mod, c.bid, line, 'a character behind the first is changed or left out')
        elif mod in ('QuoteWildcard', 'QuoteRegex'):
            want = WILD if mod == 'QuoteWildcard' else REGEX
            if ops not in (('char',), (92, 'char')):
                E.report('left out %s' % mod, c.bid, line, 'a character is left out, or others are put in')
            elif len(ops) == 2:
                if isin is not None and mod == 'QuoteWildcard' and not isin <= want or isin is None:
                    E.report('quoted %s' % mod, c.bid, line, 'a character is quoted that is not special')
            elif isin is not None and isin & want or isin is None and not want <= out:
                E.report('quoted %s' % mod, c.bid, line, 'a special character is not quoted')
        elif mod == 'EncodeUrl':
            asis = 'char' in ops
            if asis and not (alnum or isin is not None and isin <= URL):
                E.report('encoded', c.bid, line, 'a character is not encoded')
            elif not ops or ops[-1] == 'owed' or asis and len(ops) > 1:
                E.report('encoded', c.bid, line, 'a character is left out or put in twice')
            elif not asis and alnum:
                E.report('encoded', c.bid, line, 'a letter or digit is encoded')

    def on_branch(self, E, c, m, st, cond, val, line):
        mod, hand, out, isin, first, room, alnum, ops = st
        one = bool(val) if isinstance(val, int) else None
        if cond[0] == 'discr':
            if cond[1] == ('arg', self.own, 0) and isinstance(val, int):
                return (E.F.variant_by_discr('Modifier', val),) + self.START
            x = cond[1]
            if x[0] == 'call' and short(x[1]) == 'next' and c.bid == self.own:
                k = self.kind(E, c, x[2][0])
                if k == 'outer':
                    return (mod, one is True) + st[2:]
                if one and ops:
                    return st[:7] + (add(ops, 'owed'),)
            return st
        if cond[0] == 'call' and short(cond[1]) == 'contains' and cond[2][0][0] == 'arr' and one is not None:
            s = frozenset(x[1] for x in cond[2][0][1] if x[0] == 'i')
            return (mod, hand, out if one else out | s, s if one else isin) + st[4:]
        if self.char(cond) and cond[2] in ('.1', 'Option::Some.0'):
            if isinstance(val, int):
                return (mod, hand, out, frozenset([val])) + st[4:]
            return (mod, hand, out | frozenset(val[1]), isin) + st[4:]
        if cond[0] == 'p' and cond[2] == '.0' and contains_next(cond):
            f = val == 0 if isinstance(val, int) else (False if 0 in val[1] else None)
            return st[:4] + (f,) + st[5:]
        if cond[0] == 'call' and short(cond[1]) in ('is_ascii_alphanumeric', 'is_alphanumeric', 'is_ascii_alphabetic', 'is_ascii_digit') and one is not None:
            if short(cond[1]) == 'is_alphanumeric':
                one = None                                  # letters of other alphabets too
            return st[:6] + (one if alnum != '?' and (one or alnum is None) else alnum,) + st[7:]
        if cond[0] == 'bin' and one is not None:
            if cond[1] in ('Eq', 'Ne') and cond[3][0] == 'i' and contains_next(cond[2]) and cond[2][0] == 'p':
                yes = one == (cond[1] == 'Eq')
                if cond[2][2] == '.0':
                    return st[:4] + (yes if cond[3][1] == 0 else None,) + st[5:]
                if self.char(cond[2]):
                    return (mod, hand, out, frozenset([cond[3][1]])) + st[4:] if yes else (mod, hand, out | {cond[3][1]}, isin) + st[4:]
            if cond[1] in ('Le', 'Lt', 'Gt', 'Ge') and any(self.char(x) and x[2] in ('.1', 'Option::Some.0') for x in cond[2:]) and any(x[0] == 'i' for x in cond[2:]) and not (
                    cond[2][0] == 'p' and cond[2][2] == '.0'):
                return st[:6] + ('?',) + st[7:]
            if cond[1] in ('Le', 'Lt', 'Gt', 'Ge') and cond[2][0] == 'p' and cond[2][2] == '.0' and cond[3][0] == 'i' and contains_next(cond[2]):
                at = {('Gt', 0): not one, ('Ge', 1): not one, ('Lt', 1): one, ('Le', 0): one}.get((cond[1], cond[3][1]), 'other')
                return st[:4] + (at,) + st[5:]
            if cond[1] in ('Le', 'Lt', 'Gt', 'Ge') and ('Runtime.max_variable_size' in str(fields_in(cond)) or any(short(x[1]) in ('len', 'len_utf8') for x in calls(cond))):
                left = any(short(x[1]) in ('len', 'len_utf8') for x in calls(cond[2]))
                return st[:5] + (one if (cond[1] in ('Le', 'Lt')) == left else not one,) + st[6:]
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'next' and c.bid == self.own and self.kind(E, c, args[0]) == 'outer':
            self.judge(E, c, st, line)
            return ('state', (st[0],) + self.START)
        if n == 'eval_value' and c.bid == self.own:
            return [(st, ('v', 'Variable', 'String', (('0', ('call', 'evaluated', (args[1],), None)),)))]
        if not st[1]:
            return None
        if n == 'push' and len(args) == 2:
            v = args[1]
            what = 'char' if self.char(v) else v[1] if v[0] == 'i' else 'other'
            if what == 'char':
                nx = v[1] if v[2] == 'Option::Some.0' else v[1][1]
                if nx[0] == 'call' and self.kind(E, c, nx[2][0]) == 'inner':
                    return ('state', st[:7] + (add(tuple(x for x in st[7] if x != 'owed'), 'inner'),))
            return ('state', st[:7] + (st[7] + (what,) if len(st[7]) < 4 else st[7],))
        if n in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase') and args and self.char(args[0]):
            return ('state', st[:7] + (add(st[7], n),))
        if n in ('extend', 'push_str'):
            return ('state', st[:7] + (add(tuple(x for x in st[7] if x != 'owed'), 'inner'),))
        if n in ('encode_utf8', 'as_bytes', 'bytes') and st[0] == 'EncodeUrl':
            return ('state', st[:7] + (add(st[7], 'encode'),))
        if n == 'write_fmt':
            return ('state', st[:7] + (add(tuple(x for x in st[7] if x != 'owed'), 'written'),))
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        self.judge(E, c, st, line, True)
        mod = st[0]
        if not mod:
            return st
        self.seen.add(mod)
        text = ('arg', self.own, 1)
        names = {short(x[1]): x for x in calls(v)}
        if mod in ('Lower', 'Upper'):
            case = 'to_lowercase' if mod == 'Lower' else 'to_uppercase'
            if set(names) & {'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase'} - {case} or plain(v, text):
                E.report('case %s' % mod, c.bid, line, 'a text does not get the case that is named')
        if mod == 'Length' and (set(names) & {'count', 'len'}) and not ('count' in names and 'chars' in names):
            E.report('length', c.bid, line, 'the length of a text is not the number of its characters')
        if mod == 'Replace' and 'replace' not in names and names and 'ph' not in str(v):
            E.report('replace', c.bid, line, 'not every occurrence is replaced')
        if mod == 'Replace' and 'replace' in names:
            a = names['replace'][2]
            if a[0] != text or len(a) != 3 or any('Modifier::Replace.%s' % x in fields_in(y) for x, y in (('find', a[2]), ('replace', a[1]))):
                E.report('replace', c.bid, line, 'the text that is looked for is taken for the one that replaces it')
        return st


def add(ops, x):
    return ops if ops and ops[-1] == x or len(ops) > 5 else ops + (x,)


class ThreadRule(Rule):
    """the value of a text through its modifiers.
    state: (the value so far, is a modifier at hand?)"""

    def __init__(self, own, adt):
        self.own, self.adt = own, adt
        self.n = 0
        self.set = 0

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and cond[1][0] == 'call' and short(cond[1][1]) == 'next' and c.bid == self.own and st[1] == 'asked':
            return (st[0], 'one' if val == 1 else 'end')
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'next' and c.bid == self.own and args and args[0][0] == 'loc' and 'Modifier' in str(E.bi(c.bid).b.locals[args[0][2]][0]):
            if st[1] == 'one':
                E.report('skipped', c.bid, line, 'a modifier is not applied')
            if 'Rev' in str(E.bi(c.bid).b.locals[args[0][2]][0]):
                E.report('order', c.bid, line, 'modifiers are applied the other way around')
            return ('state', (st[0], 'asked'))
        if n == 'eval_value' and c.bid == self.own and '%s.value' % self.adt in fields_in(args[1]):
            return [((0, st[1]), ('v', 'Variable', 'String', (('0', ('call', 'text', (('i', 0),), None)),)))]
        if n == 'apply' and c.bid == self.own:
            self.n += 1
            old = st[0]
            if old is not None and not contains(args[1], ('call', 'text', (('i', old),), None)) and known(args[1]):
                E.report('lost', c.bid, line, 'a modifier is applied to another text than the last one gave')
            new = 1 if old in (None, 0, 2) else 2
            return [((new, 'done'), ('call', 'text', (('i', new),), None))]
        if n == 'set_variable':
            self.set += 1
            if c.bid == self.own:
                if '%s.name' % self.adt not in fields_in(args[1]):
                    E.report('name', c.bid, line, 'the text is put into another variable')
                if st[0] is not None and not contains(args[2], ('call', 'text', (('i', st[0]),), None)) and known(args[2]):
                    E.report('lost', c.bid, line, 'the text that the modifiers gave is not the one that is set')
                if st[1] in ('one', 'done'):
                    E.report('skipped', c.bid, line, 'a modifier is not applied')
            return [(st, ('t', ()))]
        return None


def known(v):
    return not any(isinstance(x, tuple) and x and x[0] in ('ph', 'r', 'u', 'old', 'hv', 'loc') for x in flat(v)) and not any(short(x[1]) in ('fold', 'try_fold') for x in calls(v))


class SortRule(Rule):
    """were the modifiers put in their order?"""

    def __init__(self, own, adts):
        self.own, self.adts = own, adts
        self.closures = set()
        self.n = 0

    def relevant(self, F):
        return about(F, self.own)

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n.startswith('sort'):
            if len(args) > 1 and args[1][0] == 'clo':
                self.closures.add((n, args[1][1], line))
            return ('state', n)
        if n == 'push' and st and args and args[0][0] == 'loc' and 'Modifier' in str(E.bi(c.bid).b.locals[args[0][2]][0] if args[0][1] == c.bid else ''):
            return ('state', '')
        return None

    def on_agg(self, E, c, m, st, v, line):
        if v[0] == 'v' and v[1] in self.adts:
            self.n += 1
            if not st:
                E.report('sorted %s' % v[1], c.bid, line, 'modifiers are not put in the order of their precedence')
            elif 'unstable' in st:
                E.report('kept %s' % v[1], c.bid, line, 'modifiers of the same precedence do not stay in the order they are given in')
        return st


class TakenRule(Rule):
    """state: the modifier that is named and not yet on the list"""
    WORDS = NAMES + ('Replace',)

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return about(F, self.own)

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int):
            if c.bid == self.own and leaf(cond[1]) == TAG and E.adt_of.get(cond[1], 'Word') == 'Word':
                w = E.F.variant_by_discr('Word', val)
                if w in self.WORDS and not (st and st != w):
                    self.seen.add(w)
                    return w
        if cond[0] == 'call' and short(cond[1]) in ('contains', 'any') and val == 1:
            return ''
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if st and n == 'any':                               # one of the list, or none
            return [('', ('i', 1)), (st, ('i', 0))]
        if st and n in ('push', 'insert', 'extend', 'push_back', 'append') and not any(x[0] == 'v' and x[1] == 'Instruction' for x in args):
            return ('state', '')
        if st and st != 'Replace' and n in ('next', 'unwrap_next'):
            E.report('lost', c.bid, line, 'a modifier that is named is not put on the list')
            return ('state', '')
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and st and v[0] == 'v' and v[2] == 'Ok':
            E.report('lost', c.bid, line, 'a modifier that is named is not put on the list')
        return st


class OrderRule(Rule):
    def __init__(self, own, adt):
        self.own, self.adt = own, adt
        self.out = {}

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == self.adt and isinstance(val, int):
            return E.F.variant_by_discr(self.adt, val) or st
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and st:
            self.out[st] = v
        return st


class R17(FlowCheck):
    explanation = (
        'The function that applies a modifier is run through on the symbolic engine for each of them: every character has to be put into the result, as it is, in the case '
        'that is named if it is the first, behind a backslash exactly if it is special, or encoded exactly if it is neither a letter, a digit nor unreserved, unless there is no '
        'room for it any more; the whole-text ones have to give the conversion that they name. The commands have to apply each modifier to what the last one gave '
        'and set that, after the compiler sorted them by falling precedence without exchanging equal ones.')

    def check(self, F):
        res = self.result()

        def bad(ok, key, b, msg, line=None):
            res.ob(1, ok)
            if not ok:
                res.bad(key, b.file, line or b.line, '%s: %s' % (b.canon, msg))

        b = F.fn('Modifier::apply')
        r = ApplyRule(b.id)
        self.simulate(F, r, [b.id], ('',) + ApplyRule.START, res)
        res.ob(r.n + len(r.seen), not res.violations)
        b = F.fn('Modifier::order')
        r = OrderRule(b.id, 'Modifier')
        self.simulate(F, r, [b.id], '', res)
        out = {k: v[1] for k, v in r.out.items() if v[0] == 'i'}
        for x in sorted(out):
            for y in sorted(out):
                if RANK.get(x, -1) > RANK.get(y, 99):
                    bad(out[x] > out[y], 'order %s %s' % (x, y), b, '%s does not come before %s' % (x, y))
        for b in [x for x in F.bodies.values() if x.kind == 'fn' and x.canon == 'Modifier as From::from']:
            r = OrderRule(b.id, 'Word')
            self.simulate(F, r, [b.id], '', res)
            for w, v in sorted(r.out.items()):
                if w in NAMES and v[0] == 'v':
                    bad(v[2] == w, 'word %s' % w, b, '%s stands for another modifier' % w.lower())
        for canon, adt in (('Set::exec', 'Set'), ('ExtractText::exec', 'ExtractText')):
            b = F.fn(canon)
            r = ThreadRule(b.id, adt)
            self.simulate(F, r, [b.id], (None, None), res)
            bad(r.set > 0, 'set %s' % canon, b, 'no variable is set')
        for b in [x for x in F.bodies.values() if x.kind == 'fn' and any(True for _ in made(F, x))]:
            r = SortRule(b.id, ('Set', 'ExtractText'))
            self.simulate(F, r, [b.id], '', res)
            res.ob(r.n, not res.violations)
            closures = r.closures
            r = TakenRule(b.id)
            self.simulate(F, r, [b.id], '', res)
            res.ob(len(r.seen), not res.violations)
            for n, k, line in sorted(closures):
                f = FoundRule(k)
                self.simulate(F, f, [k], 0, res)
                if n.endswith('by_key') or n.endswith('cached_key'):
                    for v in f.out:
                        up = 'Reverse' not in str(v) and v[0] != 'un'
                        bad(not up, 'falling', b, 'modifiers are sorted by rising precedence', line)
        return res


def about(F, own):
    """the function and those it calls that have to do with modifiers."""
    return {own} | {b for b in F.reach([own]) if F.bodies[b].kind == 'fn' and not F.bodies[b].derived and any('::Modifier' in str(t[0]) for t in F.bodies[b].locals)}


def made(F, b):
    """does b make a command with modifiers?"""
    if b.canon in ('CompilerState::parse_set', 'CompilerState::parse_mime', 'CompilerState::parse_extract_text', 'CompilerState::parse_extracttext'):
        yield b
