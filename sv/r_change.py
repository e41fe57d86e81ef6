"""R08: protections and size limits at run time. R13: a changed message is handed over."""
from base import FlowCheck, Rule, bodies_touching
from engine import contains, fields_in, leaf, path_fields, root, some, NONE
from r_map import lin

PROT, HSIZE, VSIZE = 'Runtime.protected_headers', 'Runtime.max_header_size', 'Runtime.max_variable_size'
CHANGED = 'Context.has_changes'
LAST, MAIN = 'Context.last_message_id', 'Context.main_message_id'
HEADERS, PARTS = 'mail_parser::MessagePart.headers', 'mail_parser::Message.parts'
VARS = ('Context.vars_local', 'Context.vars_global')
CHANGES = ('insert', 'remove', 'push', 'clear', 'retain', 'drain', 'truncate', 'take', 'replace', 'extend', 'append', 'pop', 'swap_remove',
           'retain_mut', 'splice', 'dedup', 'swap', 'extend_from_slice')
SAME = ('to_string', 'into_owned', 'to_owned', 'clone', 'as_ref', 'as_str', 'deref', 'borrow', 'into', 'from', 'trim', 'try_into')


def short(n):
    return n.rsplit('::', 1)[-1]


def mentions(v, k):
    if not isinstance(v, tuple) or not v:
        return False
    return v[0] == k or any(mentions(y, k) for y in v if isinstance(y, tuple))


def constant(v):
    """made from constants only?"""
    if v[0] in ('s', 'i', 'b'):
        return True
    if v[0] == 'v':
        return all(constant(x) for _, x in v[3])
    if v[0] == 'call':
        return bool(v[2]) and all(constant(x) for x in v[2])
    return False


def callers(F, pred):
    """bodies with a call for which pred(canonical name, callee) holds."""
    out = set()
    for b in F.bodies.values():
        if b.kind not in ('fn', 'closure') or b.derived:
            continue
        for blk in b.blocks:
            t = blk['t']
            if not blk['x'] and t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                lid, name = F.callee(t[1][1])
                if pred(F.bodies[lid].canon if lid else name, lid):
                    out.add(b.id)
    return out


class ProtRule(Rule):
    """state: names found unprotected since the last element was fetched, or 'protected'."""
    opaque = ()

    def __init__(self, own, insert):
        self.own, self.insert = own, insert
        self.uses = 0

    def relevant(self, F):
        return {self.own}

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if not args:
            return None
        if n in SAME and args[0][0] == 'name':
            return [(st, args[0])]
        if n == 'parse' and 'HeaderName' in name:
            s = ('name', line)
            return [(frozenset(), some(s)), (frozenset(), NONE)]
        if n == 'contains' and len(args) > 1 and leaf(args[0]) == PROT:
            return [('protected', ('i', 1)), ((st if isinstance(st, frozenset) else frozenset()) | {args[1]}, ('i', 0))]
        if n in ('any', 'position', 'find', 'all') and len(args) > 1 and PROT in fields_in(E.read(m, args[0]) or args[0]):
            given = self.captured(E, m, args[1])
            if given is None:
                self.vague = True
                return None
            names = frozenset(x for x in given if mentions(x, 'name'))
            if n == 'any':
                t, f = ('i', 1), ('i', 0)
            elif n == 'all':
                t, f = ('i', 0), ('i', 1)
            else:
                t, f = some(('sym', 'found')), NONE
            return [('protected' if names else st, t), ((st if isinstance(st, frozenset) else frozenset()) | names, f)]
        if n == 'find_headers' and len(args) > 1:
            if mentions(args[1], 'name') or not constant(args[1]):
                self.check(E, c, st, args[1], line, 'searches for')
            return None
        if self.insert in name and len(args) > 3:
            if not constant(args[2]):
                self.check(E, c, st, args[2], line, 'adds')
        if n in ('remove', 'retain', 'drain', 'clear', 'swap_remove') and HEADERS in fields_in(args[0]):
            if st == 'protected' or not st:
                self.report(E, c, line, 'removes')
        return None

    vague = False

    def captured(self, E, m, v):
        """what a closure compares with, or None if it is not known."""
        if v[0] != 'clo' or not v[2]:
            return None
        out = []
        for x in v[2]:
            for _ in range(3):
                y = E.read(m, x)
                if y is None or y == x:
                    break
                x = y
            if x[0] == 'u':
                return None
            out.append(x)
        return out

    def report(self, E, c, line, what):
        if not self.vague:
            E.report('protected ' + what, c.bid, line, 'a script %s a header field that the embedder may have protected' % what)

    def check(self, E, c, st, v, line, what):
        self.uses += 1
        if st == 'protected' or not st:
            if what != 'searches for':
                self.report(E, c, line, what)
            return
        names = [x for x in st if mentions(x, 'name')]
        if mentions(v, 'name') and names and not any(contains(v, x) for x in names):
            self.report(E, c, line, what)


class SizeRule(Rule):
    """the size up to which text is kept; state: is there room for the next character?"""
    opaque = ()

    def __init__(self, own, limit):
        self.own, self.limit = own, limit
        self.guards = 0
        self.pushes = 0

    def relevant(self, F):
        return {self.own}

    def is_limit(self, v):
        return self.limit(v)

    def room(self, E, c, cond, val):
        """does the branch say that there is room for one character (True), or that there is none?"""
        if cond[0] != 'bin' or cond[1] not in ('Le', 'Lt', 'Ge', 'Gt'):
            return None
        op, x, y = cond[1:4]
        if op in ('Ge', 'Gt'):
            op, x, y = {'Ge': 'Le', 'Gt': 'Lt'}[op], y, x
        t = val != 0
        # x <= y or x < y
        if self.is_limit(y):
            less, strict, v = t, op == 'Lt', x
        elif self.is_limit(x):
            # limit <= v is not (v < limit); limit < v is not (v <= limit)
            less, strict, v = not t, op == 'Le', y
        else:
            return None
        f = lin(v)
        n = f.pop(1, 0)
        lens = sum(k for x, k in f.items() if x[0] == 'call' and short(x[1]) == 'len')
        utf = sum(k for x, k in f.items() if x[0] == 'call' and short(x[1]) == 'len_utf8')
        if lens != 1 or len(f) > 2:
            return None
        if utf:
            return less and (strict or n >= 0) and n >= 0
        return less and (n >= 4 or strict and n >= 3)

    def on_branch(self, E, c, m, st, cond, val, line):
        r = self.room(E, c, cond, val)
        if r is not None:
            self.guards += 1
            return r
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if c.bid != self.own:
            return None
        if n == 'next':
            return ('state', False)
        if n in ('push', 'push_str', 'extend', 'insert_str', 'write_str', 'write_char') and args and 'String' in name:
            self.pushes += 1
            if not st:
                E.report('size', c.bid, line, 'text is kept beyond the limit')
            return ('state', False)
        return None


class VarRule(SizeRule):
    """set_variable: what is stored is no longer than the limit. State: (room, fits)."""

    def __init__(self, own):
        self.own = own
        self.limit = lambda v: leaf(v) == VSIZE
        self.guards = self.pushes = self.stores = 0
        self.cuts = set()

    def whole(self, v):
        """may v be the whole value, or more than another function keeps of it?"""
        if v == ('arg', self.own, 2):
            return True
        if v[0] == 'call':
            for i, x in enumerate(v[2]):
                if self.limit(x):
                    self.cuts.add((v[1], i))
                    return False
        return any(self.whole(y) for y in v if isinstance(y, tuple) and y) if v[0] != 'v' else any(self.whole(y) for _, y in v[3])

    def value(self, E, c, m, st, v, line):
        self.stores += 1
        if not st[1] and self.whole(v):
            E.report('variable', c.bid, line, 'a variable is set to a value that may be longer than the limit')

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'bin' and cond[1] in ('Le', 'Lt', 'Ge', 'Gt'):
            r = self.room(E, c, cond, val)
            x = [y for y in cond[2:4] if not self.limit(y)]
            if len(x) == 1 and any(self.limit(y) for y in cond[2:4]) and contains(x[0], ('arg', self.own, 2)):
                # length of the whole value
                op, a, b = cond[1:4]
                if op in ('Ge', 'Gt'):
                    op, a, b = {'Ge': 'Le', 'Gt': 'Lt'}[op], b, a
                fits = (val != 0) if self.limit(b) else (val == 0)
                f = lin(x[0])
                return (st[0], fits and f.get(1, 0) >= 0 and sum(k for y, k in f.items() if y != 1) == 1)
            if r is not None:
                self.guards += 1
                return (r, st[1])
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'len' and args and args[0] == ('arg', self.own, 2):
            return [(st, ('call', 'len', (args[0],), None))]
        if c.bid != self.own:
            return None
        if n == 'next':
            return ('state', (False, st[1]))
        if n in ('push', 'push_str', 'extend') and args and 'String' in name:
            self.pushes += 1
            if not st[0]:
                E.report('size', c.bid, line, 'text is kept beyond the limit')
            return ('state', (False, st[1]))
        if n == 'insert' and args and leaf(args[0]) in VARS:
            self.value(E, c, m, st, args[-1], line)
        if n == 'add_set_envelope_event' and len(args) > 2:
            self.value(E, c, m, st, args[2], line)
        return None

    def on_store(self, E, c, m, st, loc, v, line):
        if any(f in VARS for f in fields_in(loc)):
            self.value(E, c, m, st, v, line)
        return st


class CutRule(Rule):
    """values put into header fields are cut to the configured length."""
    opaque = ()

    def __init__(self, cut):
        self.cut = cut
        self.uses = 0

    def relevant(self, F):
        return callers(F, lambda n, l: self.cut in n)

    def on_call(self, E, c, m, st, name, k, args, line):
        if short(name) == self.cut and len(args) > 1:
            self.uses += 1
            if leaf(args[1]) != HSIZE:
                E.report('cut', c.bid, line, 'a value for a header field is cut to something other than the configured length')
        return None


class R08(FlowCheck):
    explanation = ('Finds every place that adds or removes a header field, or sets a variable, for a script; checks that a name from the script '
                   'is compared with the protected ones on every path to the change, in each round of a loop anew, that text for header '
                   'fields is cut at the configured length, and that what is stored in a variable is no longer than the limit.')

    def check(self, F):
        res = self.result()
        ins = F.fn('Context::insert_header')
        # header fields
        own = callers(F, lambda n, l: l == ins.id) | callers(F, lambda n, l: short(n) == 'find_headers')
        own |= {F.fn(x).id for x in ('AddHeader::exec', 'DeleteHeader::exec', 'Enclose::exec')}
        used = 0
        for bid in sorted({F.root_fn(x).id for x in own}):
            b = F.bodies[bid]
            if b.argc < 2 or not self.edits(F, bid):
                continue
            r = ProtRule(bid, short(ins.canon))
            self.simulate(F, r, [bid], frozenset(), res)
            res.ob(1)
            used += r.uses
        res.ob(1, used >= 3)
        # the length of values
        cut = [b for b in F.bodies.values() if b.kind == 'fn' and short(b.canon) == 'remove_crlf']
        for b in cut:
            r = SizeRule(b.id, lambda v, i=b.id: v == ('arg', i, 1))
            self.simulate(F, r, [b.id], False, res)
            res.ob(1)
        for bid in sorted(callers(F, lambda n, l: short(n) == 'remove_crlf')):
            r = CutRule('remove_crlf')
            self.simulate(F, r, [F.root_fn(bid).id], False, res)
            res.ob(r.uses)
        # variables
        sv = F.fn('Context::set_variable')
        r = VarRule(sv.id)
        self.simulate(F, r, [sv.id], (False, False), res)
        res.ob(3, r.stores > 0)
        if not r.stores:
            res.bad('variables', sv.file, sv.line, 'set_variable: no variable is set')
        for name, i in sorted(r.cuts):
            for b in F.bodies.values():
                if b.kind == 'fn' and b.canon == name:
                    self.simulate(F, SizeRule(b.id, lambda v, b=b.id: v == ('arg', b, i)), [b.id], False, res)
                    res.ob(1)
        for bid, line, what in self.writers(F, sv.id):
            b = F.bodies[bid]
            res.ob(1, False)
            res.bad('writer %s' % b.canon, b.file, line, '%s: a script sets a %s variable of any length' % (b.canon, what))
        return res

    def edits(self, F, bid):
        """is it part of running a script and does it change header fields?"""
        b = F.bodies[bid]
        return short(b.canon) == 'exec'

    def writers(self, F, sv):
        """functions that run a script's actions and store into the variables by themselves."""
        out = []
        for b in F.bodies.values():
            if b.kind not in ('fn', 'closure') or b.derived or F.root_fn(b.id).id == sv or '/runtime/' not in b.file:
                continue
            if short(F.root_fn(b.id).canon) != 'exec':
                continue
            for blk in b.blocks:
                t = blk['t']
                if blk['x'] or t[0] != 'call' or t[1][0] != 'k' or 'fn' not in t[1][1]:
                    continue
                lid, name = F.callee(t[1][1])
                n = short(F.bodies[lid].canon if lid else name)
                if n in ('insert', 'get_mut', 'entry', 'push', 'iter_mut', 'index_mut') and t[2] and self.on_vars(F, b, t[2][0]):
                    out.append((b.id, b.line, 'local' if n == 'get_mut' else 'global'))
        return out

    def on_vars(self, F, b, a):
        """is the receiver one of the tables of variables?"""
        if a[0] not in ('c', 'm'):
            return False
        loc = a[1][0] if isinstance(a[1], (list, tuple)) else a[1]
        seen = set()
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[1][0] == loc:
                    from facts import rvalue_places
                    for p, _ in rvalue_places(s[2]):
                        seen |= set(F.place_fields(p))
                        for blk2 in b.blocks:
                            for s2 in blk2['s']:
                                if s2[0] == '=' and s2[1][0] == p[0] and p[0] != loc and p[0] > b.argc:
                                    for p2, _ in rvalue_places(s2[2]):
                                        seen |= set(F.place_fields(p2))
        return any(f in VARS for f in seen)


class DirtyRule(Rule):
    """state: (was the message changed, was that noted)."""
    opaque = ()

    def __init__(self, own, insert):
        self.own, self.insert = own, insert
        self.dirty = self.noted = False

    def relevant(self, F):
        return {self.own}

    def split_on(self, b):
        return [i for i, l in enumerate(b.locals) if l[0] == ['prim', 'bool'] and l[1] is not None] if b.id == self.own else ()

    def touched(self, st):
        self.dirty = True
        return (True, st[1])

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if self.insert == n:
            return ('state', self.touched(st))
        if n in CHANGES and args:
            f = fields_in(args[0])
            if leaf(args[0]) in ('Context.message', HEADERS, PARTS) or leaf(args[0]) and leaf(args[0]).startswith('mail_parser::MessagePart.'):
                if n in ('take', 'replace') and 'Iterator' in name:
                    return None
                return ('state', self.touched(st))
        return None

    def on_store(self, E, c, m, st, loc, v, line):
        f = leaf(loc) or ''
        if f == CHANGED:
            if v == ('i', 1) or v[0] == 'bin' and v[1] == 'BitOr' and ('i', 1) in v[2:]:
                self.noted = True
                return (st[0], True)
            return (st[0], False) if v == ('i', 0) else st
        if f == 'Context.message' or f.startswith('mail_parser::MessagePart.') or f.startswith('mail_parser::Message.') or \
                f.startswith('mail_parser::Header.') and False:
            return self.touched(st)
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and st[0] and not st[1]:
            E.report('unnoted', c.bid, line, 'the message was changed, but what is kept or sent later is the message as it was before')
        return st


class BuildRule(Rule):
    """state: (changed, last raised, main, cleared, made)."""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if leaf(cond) == CHANGED:
            return (val != 0,) + st[1:] if st[0] is None else st if st[0] == (val != 0) else None
        return st

    def number(self, v):
        f = lin(v)
        n = f.pop(1, 0)
        ks = list(f.items())
        return n if len(ks) == 1 and ks[0][1] == 1 and leaf(ks[0][0]) == LAST else None

    def on_store(self, E, c, m, st, loc, v, line):
        f = leaf(loc)
        ch, last, main, cleared, made = st
        if f == LAST:
            last = self.number(v)
        elif f == MAIN:
            main = self.number(v)
        elif f == CHANGED:
            cleared = v == ('i', 0)
        return (ch, last, main, cleared, made)

    def on_call(self, E, c, m, st, name, k, args, line):
        if short(name) == 'build_message':
            return [(st, ('built',))]
        return None

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Event' and v[2] == 'CreatedMessage':
            d = dict(v[3])
            made = (self.number(d.get('message_id', ('u',))), mentions(d.get('message', ('u',)), 'built'))
            return st[:4] + (made,)
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        ch, last, main, cleared, made = st

        def bad(key, msg):
            E.report(key, c.bid, line, msg)
        if ch:
            self.seen.add(True)
            if last is None or last < 1:
                bad('number', 'a changed message gets the number of an earlier one')
            if main is None or main != last:
                bad('main', 'later events do not speak of the changed message')
            if not cleared:
                bad('again', 'a message that was handed over is still taken for changed')
            if made is None or v[0] == 'v' and v[2] == 'None':
                bad('made', 'a changed message is not handed over')
            elif made[0] is not None and made[0] != last:
                bad('made number', 'a changed message is handed over under another number')
            elif not made[1]:
                bad('made text', 'something other than the changed message is handed over')
        elif ch is False:
            self.seen.add(False)
            if made or last is not None or main is not None:
                bad('unchanged', 'a message that was not changed is handed over as a new one')
        return st


class KeepRule(Rule):
    """state: None while there may be changes that were not handed over, else True, or what the message's number was set to."""
    opaque = ()

    def __init__(self, own, build, changes):
        self.own, self.build, self.changes = own, build, changes
        self.seen = set()

    def relevant(self, F):
        return {self.own, self.build} | self.changes

    def on_branch(self, E, c, m, st, cond, val, line):
        if leaf(cond) == CHANGED and val == 0:
            return st or (True,)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if short(name) == 'next' and c.bid == self.own:
            return ('state', ())
        lid = E.F.callee(k)[0]
        if lid in self.changes:
            return [((), ('u',))]
        if short(name) == 'build_message':
            return [(st, ('built',))]
        return None

    def on_store(self, E, c, m, st, loc, v, line):
        f = leaf(loc)
        if f == CHANGED and v != ('i', 0):
            return ()
        if f == MAIN:
            return (v,)
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Event' and v[2] == 'Keep':
            self.seen.add(line)
            x = dict(v[3]).get('message_id', ('u',))
            if not st:
                E.report('keep before', c.bid, line, 'a message is kept without what was changed in it')
            elif not (x == st[0] or leaf(x) == MAIN):
                E.report('keep old', c.bid, line, 'what is kept is not the message as it was last changed')
        return st


class R13(FlowCheck):
    explanation = ('Simulates every function that runs a command with a state that records whether the message or its parts were changed '
                   '(their fields, lists of parts or header fields, or the message as a whole) and whether that was noted; and the '
                   'function that hands over a changed message, whose number, mark and event it checks on each path.')

    def check(self, F):
        res = self.result()
        ins = F.fn('Context::insert_header')
        dirty = noted = 0
        for b in sorted(F.bodies.values(), key=lambda b: b.id):
            if b.kind == 'fn' and not b.derived and short(b.canon) == 'exec' and '/runtime/' in b.file and b.argc >= 2:
                r = DirtyRule(b.id, short(ins.canon))
                self.simulate(F, r, [b.id], (False, False), res)
                res.ob(1)
                dirty += r.dirty
                noted += r.noted
        if dirty < 5:
            res.bad('changes', 'src/runtime', 0, 'only %d commands that change the message were found' % dirty)
        b = F.fn('Context::build_message_id')
        r = BuildRule(b.id)
        self.simulate(F, r, [b.id], (None, None, None, False, None), res)
        res.ob(1, r.seen == {True, False})
        store = {x.id for x in F.bodies.values() if x.kind in ('fn', 'closure') and not x.derived and x.id != b.id and any(
            s[0] == '=' and F.place_fields(s[1])[-1:] == [CHANGED] for blk in x.blocks for s in blk['s'])}
        changes = {x for x in F.reach_back(store) if F.bodies[x].kind == 'fn'}
        for f in ('Context::run', 'Context::finish_loop'):
            x = F.fn(f)
            q = KeepRule(x.id, b.id, changes - {x.id, b.id} - F.reach_back({x.id}))
            self.simulate(F, q, [x.id], (), res)
            res.ob(len(q.seen), bool(q.seen))
            if not q.seen:
                res.bad('no keep in ' + f, x.file, x.line, '%s: nothing is kept' % f)
        if True not in r.seen:
            res.bad('never', b.file, b.line, 'build_message_id: a changed message is never handed over')
        return res
