"""events carry what the commands and tests were given."""
from base import FlowCheck, bodies_touching, Rule
from engine import leaf, fields_in
from r_req import calls_in
from r_run import fetches

MAIN = 'Context.main_message_id'
LAST = 'Context.last_message_id'
CHANGED = 'Context.has_changes'
FCC = {'folder': 'mailbox', 'flags': 'flags', 'mailbox_id': 'mailbox_id', 'special_use': 'special_use', 'create': 'create'}

# what each field of an event is made of, by command (RFC 5228, 5232, 5490, 8579, 5429, 3894, 5435, 6609, 7352)
SPEC = {
    ('FileInto', 'FileInto'): {'folder': 'folder', 'flags': 'flags', 'mailbox_id': 'mailbox_id',
                               'special_use': 'special_use', 'create': 'create'},
    ('Keep', 'Keep'): {'flags': 'flags'},
    ('Reject', 'Reject'): {'extended': 'ereject', 'reason': 'reason'},
    ('Redirect', 'SendMessage'): {'recipient': 'address', 'notify': 'notify', 'return_of_content': 'return_of_content',
                                  'by_time': 'by_time'},
    ('Notify', 'Notify'): {'method': 'method', 'from': 'from', 'importance': 'importance', 'options': 'options',
                           'message': 'message'},
    ('Notify', 'FileInto'): FCC,
    ('Vacation', 'FileInto'): FCC,
    ('Include', 'IncludeScript'): {'name': 'value', 'optional': 'optional'},
    ('Test:Duplicate', 'DuplicateId'): {'last': 'last', 'expiry': 'seconds'},
    ('Test:Vacation', 'DuplicateId'): {'id': ('handle', 'reason'), 'expiry': 'period'},
    ('Test:Address', 'ListContains'): {'lists': 'key_list', 'match_as': 'comparator'},
    ('Test:Envelope', 'ListContains'): {'lists': 'key_list', 'match_as': 'comparator'},
    ('Test:Header', 'ListContains'): {'lists': 'key_list', 'match_as': 'comparator'},
    ('Test:Date', 'ListContains'): {'lists': 'key_list', 'match_as': 'comparator'},
    ('Test:CurrentDate', 'ListContains'): {'lists': 'key_list', 'match_as': 'comparator'},
    ('Test:String', 'ListContains'): {'lists': 'key_list', 'match_as': 'comparator'},
    ('Test:MailboxExists', 'MailboxExists'): {'mailboxes': 'mailbox_names'},
    ('Test:MailboxIdExists', 'MailboxExists'): {'mailboxes': 'mailbox_ids'},
    ('Test:SpecialUseExists', 'MailboxExists'): {'mailboxes': 'mailbox', 'special_use': 'attributes'},
}
# variant of an event's part <- what the command says
CHOICE = {
    ('Redirect', 'Recipient', 'List'): ('list', 1),
    ('Redirect', 'Recipient', 'Address'): ('list', 0),
    ('Include', 'Script', 'Global'): ('location', 'Global'),
    ('Include', 'Script', 'Personal'): ('location', 'Personal'),
}
# messages that an event speaks of: the message as it stands, or the one made last
IDS = {
    ('FileInto', 'FileInto'): MAIN, ('Keep', 'Keep'): MAIN, ('Redirect', 'SendMessage'): MAIN,
    ('Notify', 'SendMessage'): LAST, ('Vacation', 'SendMessage'): LAST,
    ('Notify', 'FileInto'): LAST, ('Vacation', 'FileInto'): LAST,
    ('Notify', 'CreatedMessage'): LAST, ('Vacation', 'CreatedMessage'): LAST,
}
NOTHING = frozenset()
FLAGS = ('create', 'extended', 'optional', 'last')      # yes or no


def opaque(x):
    if not isinstance(x, tuple) or not x:
        return False
    return x[0] in ('ph', 'r', 'u', 'hv', 'loc', 'ld') or any(opaque(y) for y in x)


def structs(F):
    """command -> (names of its own fields, of its fcc): leaf names as the engine has them."""
    out = {}
    for en, pre in (('Instruction', ''), ('Test', 'Test:')):
        path = [p for p in F.adts if F.short(p) == en and F.adts[p]['local']]
        for v in F.adts[path[0]]['variants'] if path else ():
            d = {}
            for f in v['fields']:
                t = f[1]
                if t and t[0] == 'adt' and t[1].endswith('::Box'):
                    t = t[2][0]
                if t and t[0] == 'adt' and t[1] in F.adts:
                    for x in F.adts[t[1]]['variants'][0]['fields']:
                        d[x[0]] = F.short(t[1]) + '.' + x[0]
            out[pre + v['name']] = d
    return out


def values(t):
    """a list of values of a script?"""
    while t and t[0] in ('ref', 'ptr'):
        t = t[2]
    if t and t[0] == 'adt' and t[1] == 'std::vec::Vec':
        t = ['slice', t[2][0]]
    return bool(t) and t[0] == 'slice' and t[1][0] == 'adt' and t[1][1].endswith('compiler::Value')


class EventRule(Rule):
    """state: (kind of instruction, what its arguments were found to be)"""

    def __init__(self, F, skip):
        self.F = F
        self.skip = skip
        self.own = structs(F)
        self.fcc = {f: 'FileCarbonCopy.' + f for f in FCC.values()}
        self.watch = {l for d in self.own.values() for l in d.values()} | set(self.fcc.values())
        # what decisions about matter
        self.matter = set(self.fcc.values())
        for (ins, _), spec in SPEC.items():
            for w in spec.values():
                self.matter |= {self.own.get(ins, {}).get(y) for y in (w if isinstance(w, tuple) else (w,))}
        for (ins, _, _), (f, _) in CHOICE.items():
            self.matter.add(self.own.get(ins, {}).get(f))
        self.matter.discard(None)
        self.seen = {}
        self.vague = set()
        # what tells apart whether there are flags stays open to the analysis
        self.chooses = {b.id for b in F.all_fns() if b.nblocks < 20 and any(
            values(t[0]) for t in b.locals[1:b.argc + 1]) and any(
            t[0] == 'call' and t[1][0] == 'k' and (F.callee(t[1][1])[1] or '').rsplit('::', 1)[-1] in ('is_empty', 'len')
            for t in (k['t'] for k in b.blocks))}
        self.by_name = {b.canon: b.id for b in F.all_fns()}
        self.vars = F.reach_back(bodies_touching(F, lambda k, n: k == 'field' and n == 'Context.vars_global'))
        self.named = set()
        for (ins, _), spec in SPEC.items():
            for w in spec.values():
                if isinstance(w, tuple):
                    self.named |= {self.own.get(ins, {}).get(y) for y in w}

    def relevant(self, F):
        return self.skip | self.chooses

    def arg_of(self, x):
        l = leaf(x)
        return l if l in self.matter else None

    def on_branch(self, E, c, m, st, cond, val, line):
        ins, known = st
        if leaf(cond) == CHANGED and val == 0:
            return ins, known | {('asis', CHANGED)}
        if cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] in ('eq', 'ne') and len(cond[2]) == 2 and val in (0, 1):
            x, y = cond[2]
            if x[0] == 'v':
                x, y = y, x
            if y[0] == 'v' and not y[3] and self.arg_of(x) and y[1] in E.F.adt_by_short:
                d = E.F.discr_of(y[1], y[2])
                same = (val == 1) == cond[1].endswith('eq')
                return ins, known | {(self.arg_of(x), d if same else ('not', frozenset([d])))}
        if cond[0] == 'discr':
            a = E.adt_of.get(cond[1])
            if a in ('Instruction', 'Test'):
                n = E.F.variant_by_discr(a, val) if isinstance(val, int) else None
                pre = 'Test:' if a == 'Test' else ''
                return (pre + n if n else ('' if a == 'Instruction' else ins), NOTHING)
            l = self.arg_of(cond[1])
        else:
            l = self.arg_of(cond)
            if l is None and cond[0] == 'call' and cond[1].rsplit('::', 1)[-1] == 'is_empty' and cond[2] and val in (0, 1):
                l = self.arg_of(cond[2][0])
                return (ins, known | {(l, 'empty' if val else 'full')}) if l else st
        if l:
            if not isinstance(val, int) and cond[0] != 'discr' and 0 in val[1]:
                val = 1
            return ins, known | {(l, val)}
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if fetches(E.F, name, k):
            return ('state', ('', NOTHING))
        given = [l for a in args for l in fields_in(a) & self.watch]
        if not given or not st[0]:
            return None
        meth = name.rsplit('::', 1)[-1]
        if len(args) == 1 and meth in ('into_owned', 'to_string', 'to_owned', 'clone', 'into', 'as_str', 'deref'):
            return [(st, args[0])]
        lid = E.F.callee(k)[0] if 'fn' in k else None
        if lid and lid not in self.skip and lid not in self.chooses and E.F.bodies[lid].kind == 'fn' \
                and E.F.bodies[lid].locals[0][0] not in (None, ['tuple', []]):
            used = [l for l in given if l in self.named]
            if used:
                st = (st[0], st[1] | {('used', l) for l in used})
            return [(st, ('call', name, tuple(args), (c.bid, line)))]
        return None

    def carry(self, k, v):
        return 'always' if leaf(k) in (MAIN, LAST) else False

    def on_store(self, E, c, m, st, loc, v, line):
        if leaf(loc) == MAIN and loc[0] == 'p':
            return st[0], st[1] | {('made', MAIN)}      # keeps an id taken before apart
        if leaf(loc) == CHANGED and loc[0] == 'p':
            known = st[1] - {('asis', CHANGED)}
            return st[0], known | {('asis', CHANGED)} if v == ('i', 0) else known
        return st

    # -------------------------------------------------------------- obligations
    def on_agg(self, E, c, m, st, v, line):
        ins, known = st
        key = (ins, v[2])
        if (ins, v[1], v[2]) in CHOICE:
            f, want = CHOICE[ins, v[1], v[2]]
            self.choice(E, c, st, v, f, want, line)
        if v[1] != 'Event':
            if v[1] == 'ByTime' and ins == 'Redirect':
                self.by_time(E, c, st, v, line)
            return st
        spec = SPEC.get(key)
        if spec:
            d = self.fcc if spec is FCC else self.own.get(ins, {})
            for f, x in v[3]:
                if f in spec:
                    self.given(E, c, st, v[2], f, x, spec[f], d, line)
        if key in IDS:
            for f, x in v[3]:
                if f == 'message_id':
                    self.seen[key + (f,)] = line
                    if IDS[key] == MAIN and ('asis', CHANGED) not in known:
                        E.report('changes lost in %s' % v[2], c.bid, line,
                                 '%s speaks of the message although changes to it may not have been handed over' % v[2])
                    now = {vv for kk, vv in m.items() if leaf(kk) == IDS[key]}
                    if x[0] == 'old' or not (x in now if now else leaf(x) == IDS[key]):
                        E.report('wrong message %s' % v[2], c.bid, line,
                                 '%s does not speak of the message it is about (%s)' % (
                                     v[2], 'the message as it stands' if IDS[key] == MAIN else 'the message just made'))
        return st

    def const(self, x):
        """is x surely made without any argument of the command?"""
        if x[0] in ('i', 's', 'b'):
            return True
        if x[0] == 'v':
            return all(self.const(y) for _, y in x[3])
        return x[0] == 'call' and not opaque(x)

    def given(self, E, c, st, ev, f, x, want, d, line):
        ins, known = st
        want = want if isinstance(want, tuple) else (want,)
        names = {d.get(w) for w in want}
        self.seen[ins, ev, f] = line
        if None in names:
            E.report('unseen argument %s' % f, c.bid, line, 'no argument %s of %s is known' % (', '.join(want), ins))
            return
        if len(want) == 2:
            used = {l for u, l in known if u == 'used'}
            h = d[want[0]]
            if used != {h if (h, 1) in known else d[want[1]]}:
                E.report('wrong %s in %s' % (f, ev), c.bid, line, '%s is not made from the %s, or without one from the %s' % (
                    (f,) + want))
            return
        got = {l for l in fields_in(x) & self.watch if not l.endswith('.fcc')}
        dec = [val for l, val in known if l in names]
        if got - names:
            E.report('wrong %s in %s' % (f, ev), c.bid, line, '%s of %s is made from %s, not from %s' % (
                f, ev, ', '.join(sorted(got - names)), ', '.join(sorted(names))))
        elif not got:
            if not self.const(x):
                self.vague.add((ins, ev, f))
            elif not (ins == ev and f == 'flags') and any(self.by_name.get(y[1], '') in self.vars for y in calls_in(x)):
                E.report('wrong %s in %s' % (f, ev), c.bid, line, '%s of %s is made from variables, not from %s' % (
                    f, ev, ', '.join(sorted(names))))
            elif not dec:
                E.report('%s lost in %s' % (f, ev), c.bid, line, '%s of %s does not depend on %s' % (
                    f, ev, ', '.join(sorted(names))))
            elif x[0] == 'v' and x[1:3] == ('Option', 'None') and not all(
                    y == 0 or not isinstance(y, int) and y not in ('empty', 'full') and 1 in y[1] for y in dec):
                E.report('%s lost in %s' % (f, ev), c.bid, line, '%s of %s is left out though it was given' % (f, ev))
            elif x[0] == 'i' and f in FLAGS and x[1] not in dec:
                E.report('wrong %s in %s' % (f, ev), c.bid, line, '%s of %s is not as it was given' % (f, ev))
        elif f in FLAGS and (x[0] in ('un', 'bin')):
            E.report('wrong %s in %s' % (f, ev), c.bid, line, '%s of %s is not as it was given' % (f, ev))
        if f == 'flags' and ev in ('FileInto', 'Keep') and ins == ev:
            if got and 'full' not in dec:
                E.report('variable flags lost', c.bid, line,
                         '%s without flags of its own does not use those of the internal variable' % ev)
            elif not got and 'empty' not in dec:
                E.report('flags lost in %s' % ev, c.bid, line, '%s does not use the flags it is given' % ev)

    def choice(self, E, c, st, v, f, want, line):
        ins, known = st
        l = self.own[ins].get(f)
        dec = [val for n, val in known if n == l]
        self.seen[ins, v[1], v[2]] = line
        if isinstance(want, str):
            w = E.F.discr_of('Location', want)
        else:
            w = want
        ok = any(y == w or not isinstance(y, int) and y not in ('empty', 'full') and {0, 1} - set(y[1]) == {w} for y in dec)
        if not ok:
            E.report('wrong choice %s' % v[2], c.bid, line, '%s::%s is chosen without %s being %s' % (v[1], v[2], l, want))

    def by_time(self, E, c, st, v, line):
        ins, known = st
        l = self.own[ins].get('by_time')
        w = E.F.discr_of('ByTime', v[2])
        dec = [val for n, val in known if n == l]
        self.seen[ins, 'ByTime', v[2]] = line
        if dec and not any(y == w or not isinstance(y, int) and w not in y[1] for y in dec):
            E.report('wrong choice %s' % v[2], c.bid, line, 'ByTime::%s is made from another variant' % v[2])
        for f, x in v[3]:
            got = {y for y in fields_in(x) if y.startswith('ByTime::')}
            if fields_in(x) & self.watch - {l} or got - {'ByTime::%s.%s' % (v[2], f)} or (not got and self.const(x)):
                E.report('wrong %s in ByTime' % f, c.bid, line, '%s of ByTime::%s is not the %s that was given' % (f, v[2], f))


class R07(FlowCheck):
    explanation = (
        'Property simulation of Context::run, with the arguments of every instruction kept symbolic: each field of each event '
        '(fileinto, keep, reject, redirect, notify, file-carbon-copy, include, duplicate and list and mailbox tests) must be made '
        'from the argument of the command that a table gives for it and from no other; a field that is left out or constant '
        'must lie behind a branch on that argument; the message an event speaks of must be the current value of the id of the '
        'message as it stands or of the message just made; keep and fileinto without flags use the variable\'s.')

    def check(self, F):
        res = self.result()
        root = F.fn('Context::run')
        skip = F.reach_back(bodies_touching(F, lambda k, n: (k == 'agg' and n.startswith('Event::')) or (
            k == 'discr' and n in ('Instruction', 'Test'))))
        r = EventRule(F, skip)
        self.simulate(F, r, [root.id], ('', NOTHING), res)
        need = {(i, e, f) for (i, e), s in SPEC.items() for f in s} | set(CHOICE) | {k + ('message_id',) for k in IDS}
        unseen = {x for x in need if x not in r.seen}
        for x in sorted(unseen):
            res.bad('unseen %s' % ' '.join(x), root.file, root.line, 'no %s of %s is seen under %s' % (x[2], x[1], x[0]))
        res.ob(len(need), not res.violations)
        res.samples.append('%d fields and choices of events; %d of them partly beyond the analysis: %s' % (
            len(r.seen), len(r.vague), sorted(r.vague)))
        return res
