"""R16: flags are kept as a set."""
from base import FlowCheck, Rule
from engine import contains, fields_in, leaf
from r_refs import calls, short

LOWER = ('to_lowercase', 'to_ascii_lowercase')
TOKENIZE = 'tokenize_flags'


def lowered(v, what=None):
    return v[0] == 'call' and short(v[1]) in LOWER and (what is None or v[2] and v[2][0] == what)


def plain(v, what):
    while v[0] == 'call' and short(v[1]) in ('to_string', 'to_owned', 'into', 'from', 'clone', 'as_ref', 'deref') and v[2]:
        v = v[2][0]
    return v == what


def captured(v, own):
    """which of the captured values v is."""
    if v[0] == 'p' and v[1] == ('arg', own, 0) and v[2].lstrip('.').isdigit():
        return int(v[2].lstrip('.'))
    return None


class FlagRule(Rule):
    """what is done with one flag of the list.
    state: (is it in the list: None or (list, answer), is the text empty: None or (text, answer), what was done)"""

    def __init__(self, own):
        self.own = own
        self.flag = ('arg', own, 1)
        self.ends = set()
        self.finders = set()
        self.looked = False

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'un' and cond[1] == 'Not' and val in (0, 1):
            cond, val = cond[2], 1 - val
        if not isinstance(val, int):
            val = 1
        if cond[0] == 'call' and short(cond[1]) == 'contains' and cond[2]:
            i = captured(cond[2][0], self.own)
            if i is not None:
                self.looked = True
                if not lowered(cond[2][1], self.flag):
                    E.report('case', c.bid, line, 'flags are compared with respect to case')
                return ((i, bool(val)),) + st[1:]
        if cond[0] == 'call' and short(cond[1]) == 'is_empty' and cond[2]:
            i = captured(cond[2][0], self.own)
            if i is not None:
                return (st[0], (i, bool(val)), st[2])
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n in ('any', 'find', 'insert', 'eq_ignore_ascii_case', 'retain', 'iter') and c.bid == self.own:
            self.looked = True
        if n in ('position', 'rposition') and c.bid == self.own and len(args) == 2 and args[1][0] == 'clo':
            self.looked = True
            self.finders.add((args[1][1], any(lowered(x, self.flag) for x in flat(args[1][2]) if x and x[0] == 'call'), line))
            return [(((None, True),) + st[1:], ('v', 'Option', 'Some', (('0', ('call', 'found', (), None)),))),
                    (((None, False),) + st[1:], ('v', 'Option', 'None', ()))]
        i = captured(args[0], self.own) if args else None
        if i is None:
            return None
        if n in ('push', 'push_str') and len(args) == 2:
            v = args[1]
            kind = 'space' if v in (('i', 32), ('s', ' ')) else 'lower' if lowered(v, self.flag) else 'flag' if plain(v, self.flag) else 'other'
            return ('state', (st[0], st[1], st[2] + (('push', i, kind),)))
        if n in ('swap_remove', 'remove') and len(args) == 2:
            at = n if args[1] == ('call', 'found', (), None) else 'other'
            return ('state', (st[0], st[1], st[2] + (('remove', i, at),)))
        if n in ('clear', 'truncate', 'pop', 'drain'):
            return ('state', (st[0], st[1], st[2] + ((n, i, ''),)))
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            self.ends.add((st, v, line))
        return st


class FoundRule(Rule):
    """the closure that looks for a flag: is the answer yes for the same only?"""

    def __init__(self, own):
        self.own = own
        self.out = set()

    def relevant(self, F):
        return {self.own}

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            self.out.add(v)
        return st


class ExecRule(Rule):
    """state: (action, is a variable named?, was the variable read?, the closure and what it holds, was the variable set?, what was put in lists)"""

    def __init__(self, own):
        self.own = own
        self.closures = set()
        self.texts = set()
        self.ends = set()
        self.lists = set()
        self.kept = set()

    def relevant(self, F):
        return {self.own}

    def mine(self, E, bid):
        return bid == self.own or E.F.root_fn(bid).id == self.own

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int):
            if leaf(cond[1]) == 'EditFlags.action':
                return (E.F.variant_by_discr(E.adt_of.get(cond[1]), val),) + st[1:]
            if leaf(cond[1]) == 'EditFlags.name':
                return st[:1] + (bool(val),) + st[2:]
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[0] == 'v' and v[1] == 'VariableType' and v[2] == 'Global' and self.mine(E, c.bid):
            x = v[3][0][1]
            while x[0] == 'call' and x[2]:
                x = x[2][0]
            if x[0] == 's':
                self.texts.add(x[1])
        return st

    def variable(self, E, c, st, v, line):
        named = 'EditFlags.name' in fields_in(v)
        if st[1] is not None and named != st[1] and v[0] not in ('ph', 'r', 'u'):
            E.report('variable', c.bid, line, 'the flags of another variable are changed')

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if c.bid != self.own:
            return None
        if n == 'get_variable':
            self.variable(E, c, st, args[1], line)
            return [(st[:2] + (args[1],) + st[3:], ('v', 'Option', 'None', ())),
                    (st[:2] + (args[1],) + st[3:], ('v', 'Option', 'Some', (('0', ('call', 'old flags', (), None)),)))]
        if n == 'push' and st[0] and args[0][0] == 'loc':
            v = args[1]
            self.lists.add((st[0], args[0], 'lower' if lowered(v) and contains_next(v) else 'flag' if contains_next(v) and not list(x for x in calls(v) if short(x[1]) in LOWER) else 'other', line))
        if n == TOKENIZE:
            good = 'EditFlags.flags' in fields_in(args[1])
            if not good:
                E.report('flags', c.bid, line, 'the flags are taken from another place')
            clo = args[2]
            if clo[0] == 'clo':
                vals = tuple(E.read(m, x) if x[0] == 'loc' else x for x in clo[2])
                self.closures.add((st[0], clo[1], clo[2], vals))
                return [(st[:3] + ((clo[1], clo[2], vals),) + st[4:], ('i', 0))]
            return [(st, ('i', 0))]
        if n == 'set_variable':
            self.variable(E, c, st, args[1], line)
            if st[2] is not None and st[2] != args[1]:
                E.report('variable', c.bid, line, 'the flags of one variable are put into another')
            if st[4]:
                E.report('twice', c.bid, line, 'the flags are set twice')
            if st[3]:
                self.kept.add((st[0], st[3][0], tuple(i for i, x in enumerate(st[3][2]) if x[0] != 'i' and contains(args[2], x) or contains(args[2], st[3][1][i]))))
            return [(st[:4] + (True,), ('t', ()))]
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            self.ends.add((st[0], st[2] is not None, st[3] is not None, st[4], line))
        return st


def contains_next(v):
    return any(short(x[1]) == 'next' for x in calls(v))


def is_it(val, n):
    if isinstance(val, int):
        return val == n
    return False if n in val[1] else None


class TokenRule(Rule):
    """state: (is the string empty?, was its text handed on?, is it the first?, is it the only one?, last answer)"""

    def __init__(self, own):
        self.own = own
        self.n = 0

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        empty, done, first, only, ans = st
        if cond[0] == 'call' and short(cond[1]) == 'is_empty' and isinstance(val, int) and 'split' not in str(cond):
            return (bool(val), done, first, only, ans)
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and cond[3][0] == 'i' and isinstance(val, int):
            yes = bool(val) == (cond[1] == 'Eq')
            if cond[2][0] == 'call' and short(cond[2][1]) == 'len' and cond[3][1] == 1:
                return (empty, done, first, yes, ans)
            if contains_next(cond[2]) and cond[3][1] == 0:
                return (empty, done, yes, only, ans)
        if cond[0] == 'call' and short(cond[1]) == 'len':
            return (empty, done, first, is_it(val, 1), ans)
        if contains_next(cond) and cond[0] == 'p' and cond[2] == '.0':
            return (empty, done, is_it(val, 0), only, ans)
        if cond[0] == 'discr' and contains_next(cond) and done == 'asked':
            return (empty, 'open' if val == 1 else True, first, only, ans)
        return st

    def source(self, E, c, v):
        return str(E.bi(c.bid).b.locals[v[2]][0]) if v[0] == 'loc' and c.bid == v[1] else ''

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'next' and c.bid == self.own:
            src = self.source(E, c, args[0])
            if st[4]:
                E.report('more', c.bid, line, 'the search goes on after an answer')
            if 'Value' not in src:
                return ('state', st[:1] + ('asked',) + st[2:])
            else:
                if st[0] is False and st[1] is not True:
                    E.report('left out', c.bid, line, 'a flag of the list is left out')
                return ('state', (None, False, None, None, None))
        if n == 'any' and c.bid == self.own and 'Value' not in self.source(E, c, args[0]):
            self.n += 1
            return [(st[:1] + (True,) + st[2:4] + (True,), ('i', 1)), (st[:1] + (True,) + st[2:4] + (False,), ('i', 0))]
        if n in ('all', 'find', 'for_each', 'try_for_each', 'position', 'find_map') and c.bid == self.own:
            return ('state', st[:1] + (True,) + st[2:])
        if n == 'call_mut' and len(args) == 2:
            self.n += 1
            v = args[1]
            if not any(short(x[1]) in ('eval_value', 'next') for x in calls(v)) and 'ph' not in str(v) and "'r'" not in str(v):
                E.report('text', c.bid, line, 'another text is taken for a flag')
            if (st[2] or st[3]) and st[2] is not False and st[3] is not False and not ('split' in str(v) or contains_next(v)):
                E.report('words', c.bid, line, 'a single string is not taken as a list of flags')
            return [(st[:1] + (st[1] or True,) + st[2:4] + (True,), ('i', 1)), (st[:1] + (st[1] or True,) + st[2:4] + (False,), ('i', 0))]
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            if v == ('i', 1) and not st[4] or v == ('i', 0) and st[4]:
                E.report('answer', c.bid, line, 'the answer is not that of the flags')
            if v == ('i', 0) and st[4] is False and st[1] is not None and st[0] is not None:
                E.report('answer', c.bid, line, 'the flags behind one are left out')
        return st


class KeepRule(Rule):
    """the flags of an event.
    state: (own flags are empty?, flags of the script are empty?)"""

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'call' and short(cond[1]) == 'is_empty' and isinstance(val, int) and cond[2]:
            x = cond[2][0]
            if any(y[1] == 'own flags' for y in calls(x)) or leaf(x) == 'Event::Keep.flags':
                return (bool(val), st[1])
            if any(y[1] == 'flags of the script' for y in calls(x)):
                return (st[0], bool(val))
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'get_global_flags':
            return [(st, ('call', 'flags of the script', (), None))]
        if n == 'get_local_or_global_flags':
            return [(st, ('call', 'flags', (args[1],), None))]
        if n == 'get_local_flags':
            return [(st, ('call', 'own flags', (args[1],), None))]
        return None

    def on_agg(self, E, c, m, st, v, line):
        if v[0] != 'v' or v[1] != 'Event' or v[2] not in ('Keep', 'FileInto'):
            return st
        f = dict(v[3])['flags']
        for x in calls(f):
            if x[1] in ('flags', 'own flags'):
                self.seen.add(v[2])
                if x[1] == 'own flags' or '%s.flags' % v[2] not in fields_in(x[2][0]):
                    E.report('flags of %s' % v[2], c.bid, line, 'a message is handed over with other flags')
                return st
            if x[1] == 'flags of the script':
                self.seen.add('script')
                if st[0] is not True:
                    E.report('flags of %s' % v[2], c.bid, line, 'the flags of the script replace those of the action')
                return st
        if leaf(f) == 'Event::Keep.flags':
            self.seen.add('own')
            if st != (True, True) and st[0] is not False:
                E.report('flags of %s' % v[2], c.bid, line, 'a message is kept without the flags of the script')
        elif v[2] == 'FileInto' and f[0] == 'call':
            E.report('flags of %s' % v[2], c.bid, line, 'a message is handed over with other flags')
        return st


class ChoiceRule(Rule):
    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'call' and short(cond[1]) == 'is_empty' and isinstance(val, int) and cond[2] and cond[2][0] == ('arg', self.own, 1):
            return 'none' if val else 'some'
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and cond[3] == ('i', 0) and cond[2][0] == 'call' and cond[2][2] == (('arg', self.own, 1),) and isinstance(val, int):
            return 'none' if bool(val) == (cond[1] == 'Eq') else 'some'
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and cond[3][0] == 'i' and cond[2][0] == 'call' and cond[2][2] == (('arg', self.own, 1),) and isinstance(val, int):
            return 'some' if bool(val) == (cond[1] == 'Eq') else st
        if cond[0] in ('un', 'call', 'bin') and contains(cond, ('arg', self.own, 1)):
            return st or '?'
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n in ('get_global_flags', 'get_local_flags') and c.bid == self.own:
            self.seen.add(n)
            if st != '?' and st != {'get_global_flags': 'none', 'get_local_flags': 'some'}[n]:
                E.report('choice', c.bid, line, 'the flags are not those that are given, or those of the script if none are')
            return [(st, ('call', n, (), None))]
        return None


class TextRule(Rule):
    """the name under which the flags of the script are read."""

    def __init__(self, own):
        self.own = own
        self.texts = set()

    def relevant(self, F):
        return {self.own}

    def on_call(self, E, c, m, st, name, k, args, line):
        if short(name) == 'get' and args and leaf(args[0]) == 'Context.vars_global' and args[1][0] == 's':
            self.texts.add(args[1][1])
        return None


class ActionRule(Rule):
    """which action a word stands for."""

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int) and E.adt_of.get(cond[1]) == 'Word' and cond[1] == ('arg', self.own, 1):
            return E.F.variant_by_discr('Word', val) or st
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[0] == 'v' and v[1] == 'EditFlags':
            a = dict(v[3])['action']
            if a[0] == 'v' and st in ('SetFlag', 'AddFlag', 'RemoveFlag'):
                self.seen.add(st)
                if a[2] + 'Flag' != st:
                    E.report('action', c.bid, line, '%s stands for another action' % st.lower())
        return st


class R16(FlowCheck):
    explanation = (
        'The instruction that changes flags is run through on the symbolic engine for each of its three actions: the variable it reads has to be the one it sets, the '
        'one that is named or else that of the script, with the flags of the instruction and once. What is done with one flag is run through as well: it is looked for '
        'without regard to case, put in (text and lowercase form, after a space unless it is the first) only if it was not found, taken out of both lists at the '
        'place where it was found, and no flag ends the walk. Every non-empty string of a list is handed on, and an answer ends the walk only if it is yes. '
        'A message is handed over with the flags of its own action, and with those of the script only if that one has none.')

    def check(self, F):
        res = self.result()
        self.edits(F, res)
        self.tokens(F, res)
        self.events(F, res)
        return res

    def bad(self, res, ok, key, b, line, msg):
        res.ob(1, ok)
        if not ok:
            res.bad(key, b.file, line, '%s: %s' % (b.canon, msg))

    def edits(self, F, res):
        b = F.fn('EditFlags::exec')
        r = ExecRule(b.id)
        self.simulate(F, r, [b.id], (None, None, None, None, False), res)
        for action, read, walked, done, line in sorted(r.ends, key=str):
            if action is None:
                continue
            self.bad(res, done, 'not set %s' % action, b, line, 'the flags are not set')
            self.bad(res, walked, 'not walked %s' % action, b, line, 'the flags of the instruction are not looked at')
            self.bad(res, read == (action != 'Set'), 'read %s' % action, b, line, 'the flags that the variable has are %s' % ('not looked at' if action != 'Set' else 'not replaced'))
        g = F.fn('Context::get_global_flags')
        t = TextRule(g.id)
        self.simulate(F, t, [g.id], 0, res)
        if t.texts and r.texts:
            self.bad(res, t.texts == r.texts, 'own variable', b, b.line, 'the flags of the script are kept in another place than they are read from')
        for action, k, locs, vals in sorted(r.closures, key=str):
            if not action:
                continue
            kept = {i for a, kk, ii in r.kept if (a, kk) == (action, k) for i in ii}
            self.flag(F, res, action, F.bodies[k], locs, vals, kept, r)

    def flag(self, F, res, action, b, locs, vals, kept, ex):
        r = FlagRule(b.id)
        self.simulate(F, r, [b.id], (None, None, ()), res)
        if not r.looked:
            self.bad(res, False, 'search %s' % action, b, b.line, 'a flag is not looked for')
        for (hit, empty, ops), v, line in sorted(r.ends, key=str):
            self.bad(res, v == ('i', 0) or v[0] != 'i', 'stop %s' % action, b, line, 'the flags behind one are left out')
            if hit is None:
                continue
            puts = [(i, kind) for op, i, kind in ops if op == 'push']
            gone = [(i, at) for op, i, at in ops if op == 'remove']
            if action == 'Remove':
                self.bad(res, not puts, 'put %s' % action, b, line, 'a flag is put in')
                if hit[1]:
                    ok = len(gone) == len({i for i, at in gone}) and len({at for i, at in gone} - {'other'}) == 1 and 'other' not in {at for i, at in gone} and len(gone) == len(locs)
                    self.bad(res, ok, 'take %s' % action, b, line, 'a flag is not taken out of all lists at the place where it was found')
                else:
                    self.bad(res, not gone, 'take %s' % action, b, line, 'another flag is taken out')
                continue
            self.bad(res, not gone, 'take %s' % action, b, line, 'a flag is taken out')
            flags = [i for i, kind in puts if kind == 'flag']
            if hit[1]:
                self.bad(res, not puts, 'again %s' % action, b, line, 'a flag that is there already is put in again')
                continue
            lower = [i for i, kind in puts if kind == 'lower' and i == hit[0]]
            self.bad(res, len(flags) == 1 and flags[0] != hit[0], 'put %s' % action, b, line, 'a flag that is not there is not put in as it is written')
            self.bad(res, len(lower) == 1, 'noted %s' % action, b, line, 'a flag that was put in is not found again')
            if len(flags) == 1:
                text = [kind for i, kind in puts if i == flags[0]]
                self.bad(res, not kept or flags[0] in kept, 'kept %s' % action, b, line, 'another text is stored than the one the flags are put in')
                if empty and empty[0] == flags[0]:
                    want = ['flag'] if empty[1] else ['space', 'flag']
                    self.bad(res, text == want, 'space %s' % action, b, line, 'flags are not kept apart by a space')
                elif text == ['flag']:
                    self.bad(res, False, 'space %s' % action, b, line, 'flags are not kept apart by a space')
            if action == 'Add' and hit[0] is not None and hit[0] < len(vals):
                v = vals[hit[0]]
                cl = [x for x in flat(v) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'clo']
                if any(short(x[1]) == 'split' for x in calls(v)):
                    low = any(short(x[1]) in LOWER for x in calls(v))
                    for k in cl:
                        f = FoundRule(k[1])
                        self.simulate(F, f, [k[1]], 0, res)
                        low = low or any(short(x[1]) in LOWER for o in f.out for x in calls(o))
                    self.bad(res, low, 'known %s' % action, b, line, 'the flags that are there are compared with respect to case')
        for k, low, line in r.finders:
            f = FoundRule(k)
            self.simulate(F, f, [k], 0, res)
            self.bad(res, low or any(short(x[1]) == 'eq_ignore_ascii_case' or short(x[1]) in LOWER for o in f.out for x in calls(o)), 'case %s' % action, b, line,
                     'flags are compared with respect to case')
        if action == 'Remove':
            for k in [x for x in F.bodies.values() if x.kind == 'closure' and x.id.startswith(b.id + '::')]:
                f = FoundRule(k.id)
                self.simulate(F, f, [k.id], 0, res)
                ok = not any(o[0] == 'bin' and o[1] == 'Ne' or o[0] == 'call' and short(o[1]) in ('ne', 'starts_with', 'ends_with', 'contains') or o[0] == 'un' for o in f.out)
                self.bad(res, ok, 'found %s' % action, k, k.line, 'another flag is taken for the one')
            own = {x: kind for a, x, kind, line in ex.lists if a == 'Remove'}
            if len(own) == 2 and set(own) == set(locs):
                self.bad(res, sorted(own.values()) == ['flag', 'lower'], 'lists %s' % action, b, b.line, 'the flags that are there are not compared in lowercase')
                i = [locs.index(x) for x in own if own[x] == 'flag']
                self.bad(res, not kept or not i or i[0] in kept, 'kept %s' % action, b, b.line, 'the flags are stored in another form')

    def tokens(self, F, res):
        b = F.fn('Context::tokenize_flags')
        r = TokenRule(b.id)
        self.simulate(F, r, [b.id], (None, False, None, None, None), res)
        res.ob(r.n, not res.violations)
        b = F.fn('Context::get_local_flags')
        for k in [x for x in F.bodies.values() if x.kind == 'closure' and x.id.startswith(b.id + '::')]:
            r = FlagRule(k.id)
            self.simulate(F, r, [k.id], (None, None, ()), res)
            for (hit, empty, ops), v, line in r.ends:
                self.bad(res, v == ('i', 0) or v[0] != 'i', 'stop', k, line, 'the flags behind one are left out')
                if hit is None and empty is None:
                    self.bad(res, [x[2] for x in ops] == ['flag'] or not ops and v[0] != 'i', 'local', k, line, 'a flag is not taken as it is written')
        g = F.fn('Context::get_global_flags')
        for k in [x for x in F.bodies.values() if x.kind == 'closure' and x.id.startswith(g.id + '::')]:
            f = FoundRule(k.id)
            self.simulate(F, f, [k.id], 0, res)
            self.bad(res, not any(short(x[1]) in LOWER + ('to_uppercase', 'to_ascii_uppercase') for o in f.out for x in calls(o)), 'global', k, k.line, 'a flag is not taken as it is written')
        b = F.fn('Context::get_local_or_global_flags')
        r = ChoiceRule(b.id)
        self.simulate(F, r, [b.id], '', res)
        self.bad(res, len(r.seen) in (0, 2), 'choice', b, b.line, 'the flags are never those of the %s' % ('script' if 'get_local_flags' in r.seen else 'action'))
        b = F.fn('CompilerState::parse_flag_action')
        r = ActionRule(b.id)
        self.simulate(F, r, [b.id], '', res)
        res.ob(3, not res.violations)

    def events(self, F, res):
        seen = set()
        for canon in ('Context::run', 'Context::run_loop', 'Context::finish_loop', 'FileInto::exec'):
            for b in [x for x in F.bodies.values() if x.kind == 'fn' and x.canon == canon]:
                r = KeepRule(b.id)
                self.simulate(F, r, [b.id], (None, None), res)
                seen |= r.seen
        b = F.fn('FileInto::exec')
        for x, what in (('FileInto', 'fileinto'), ('Keep', 'keep'), ('script', 'the implicit keep')):
            self.bad(res, x in seen, 'events %s' % x, b, b.line, 'the flags of %s are not handed over' % what)


def flat(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from flat(x)
