"""R12: when an automatic reply is sent."""
from collections import namedtuple
from base import FlowCheck, Rule, bodies_touching
from engine import contains, fields_in, leaf, path_fields
from r_map import lin

HN, ENV = 'mail_parser::HeaderName', 'Envelope'
NAME, VALUE = 'mail_parser::Header.name', 'mail_parser::Header.value'
PARTS = 'mail_parser::Message.parts'
ORIG = 'Runtime.vacation_use_orig_rcpt'
LISTS = ('ListArchive', 'ListHelp', 'ListId', 'ListOwner', 'ListPost', 'ListSubscribe', 'ListUnsubscribe')
ADDRS = ('To', 'Cc', 'Bcc', 'ResentTo', 'ResentCc', 'ResentBcc')
AUTO, SUPP, PREC = 'auto-submitted', 'x-auto-response-suppress', 'precedence'
WORDS = {AUTO: ('no',), SUPP: ('all', 'oof'), PREC: ('bulk',)}
SENDERS = {'mailer-daemon': 'starts_with', 'owner-': 'starts_with', '-request@': 'contains'}
SAME = ('to_string', 'into_owned', 'to_owned', 'clone', 'as_ref', 'as_str', 'deref', 'borrow', 'into', 'from', 'as_bytes', 'trim', 'into_bytes')
LOWER = ('to_ascii_lowercase', 'to_lowercase')
SENDER = ('sender', True)

# known: what was found out of the sender | own: is it one of the user's addresses? | found: was one of them in the header? |
# loop: header field being looked at: None, '?' or its kind | looked: were its addresses searched | no: names it does not have |
# is_: the name it has | words: words its value has | absent: it has no text | low: its text is lowercased | done: all were seen |
# env: part of the envelope | pushed, empty, orig: of an address of the user | ua: the configured address
G = namedtuple('G', 'known own found loop looked no is_ words absent low done env pushed empty orig item ua period handle disp orig0')
G0 = G(frozenset(), None, False, None, False, frozenset(), None, frozenset(), False, False, False, None, False, None, None, None, None, None, None,
       frozenset(), None)


def short(n):
    return n.rsplit('::', 1)[-1]


def fetched(v):
    """the `next` call a path begins with."""
    while v[0] in ('p', 'idx', 'old'):
        v = v[1]
    return v[2][0] if v[0] == 'call' and short(v[1]) == 'next' and v[2] else None


def const(v):
    return v[1].lower() if v[0] == 's' and isinstance(v[1], str) else None


def mentions(v, k):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == k:
        return True
    return any(mentions(y, k) for y in v if isinstance(y, tuple))


class HeadRule(Rule):
    """the loop over the header of the message, and the envelope."""
    opaque = ()

    def __init__(self, own, full, prior=None):
        self.own, self.full, self.prior = own, full, prior
        self.hloops, self.eloops = set(), set()
        self.passed = {}
        self.vague = False
        self.roles = {}
        self.raw = set()
        self.words = {}
        self.pushes = 0
        self.compared = False
        self.events = 0
        self.searched = set()
        self.ask = 0

    def relevant(self, F):
        if not hasattr(self, 'rel'):
            self.rel = {self.own} | bodies_touching(F, lambda k, n: k == 'discr' and n in (HN,) and False)
        return self.rel

    def bad(self, E, c, line, key, msg):
        if self.prior is not None:
            E.report(key, c.bid, line, msg)

    # ------------------------------------------------------------ values
    def is_sender(self, v):
        if v[0] == 'sender':
            return True
        if v == ('envval', 'From') and self.full:
            return True
        return v[0] == 'ph' and len(v) == 4 and v[1] == self.own and self.prior is not None and 'From' in self.prior.roles.get(v[3], ())

    def note(self, E, c, m):
        """which local variables hold the sender."""
        if c.bid != self.own:
            return
        b = E.F.bodies[self.own]
        loc = E.bi(self.own).loc
        for i in range(b.argc + 1, len(b.locals)):
            if b.locals[i][1] is not None:
                v = m.get(loc[i])
                if v and v[0] == 'sender':
                    self.roles.setdefault(i, set()).add('From')
                elif v and v[0] == 'envval':
                    self.roles.setdefault(i, set()).add(v[1])
                    if v[1] == 'From':
                        self.raw.add(i)

    # ------------------------------------------------------------ a header field is done with
    def settle(self, E, c, st, line, loc):
        if st.loop is None:
            return
        kinds = {st.loop} if not isinstance(st.loop, frozenset) else set(st.loop)
        if st.loop == '?':
            kinds = set(E.F.variants(HN))
        p = self.passed.setdefault(loc, {})

        def skip(key, msg):
            p.setdefault(key, (c.bid, line, msg))
        if self.full:
            for k in LISTS:
                if k in kinds:
                    skip(k, 'a message with a %s field is replied to' % k)
            if not st.found and not st.looked:
                for k in ADDRS:
                    if k in kinds:
                        skip(k, 'the addresses in %s are not searched for those of the user' % k)
        if 'Other' in kinds:
            for n in (AUTO, SUPP, PREC) if self.full else (AUTO,):
                if n in st.no or st.is_ not in (None, n):
                    continue
                if st.is_ is None:
                    skip(n, 'a %s field is not looked at' % n)
                elif n == AUTO:
                    if 'no' not in st.words:
                        skip(n, 'a message is answered although its Auto-Submitted field says more than "no"')
                elif st.words & set(WORDS[n]):
                    skip(n, 'a message is answered although its %s field forbids it' % n)

    def out(self, E, c, st, line):
        """a reply is asked for."""
        self.events += 1
        p = self.prior
        if p is None:
            return
        if p.hloops and not p.vague and not st.done:
            self.bad(E, c, line, 'header', 'a reply is possible before the whole header has been looked at')
        if not self.full:
            return
        if p.roles:
            if 'sender' not in st.known:
                self.bad(E, c, line, 'sender', 'a reply is possible to an unknown sender')
            for w in SENDERS:
                if w not in st.known:
                    self.bad(E, c, line, 'sender ' + w, 'a reply is possible to a sender with "%s"' % w)
            if st.own == 'yes' or not p.compared:
                self.bad(E, c, line, 'own', 'a reply is possible to the user\'s own address')
        if p.ask and not st.found:
            self.bad(E, c, line, 'recipient', 'a reply is possible although none of the user\'s addresses is among the recipients')
        if p.pushes and st.ua is None:
            self.bad(E, c, line, 'user address', 'the configured address of the user is not counted as theirs')

    # ------------------------------------------------------------ hooks
    def on_branch(self, E, c, m, st, cond, val, line):
        self.note(E, c, m)
        if cond[0] == 'discr':
            x = cond[1]
            t = E.adt_of.get(x)
            if t == HN and leaf(x) == NAME:
                loc = fetched(x)
                if loc is None:
                    self.vague = True
                    return st
                self.hloops.add(loc)
                names = {E.F.discr_of(HN, w): w for w in E.F.variants(HN)}
                cur = set(names.values()) if st.loop in (None, '?') else set(st.loop) if isinstance(st.loop, frozenset) else {st.loop}
                cur &= {names[val]} if isinstance(val, int) and val in names else {w for n, w in names.items() if n not in val[1]} \
                    if not isinstance(val, int) else set()
                if not cur:
                    return None
                return st._replace(loop=cur.pop() if len(cur) == 1 else frozenset(cur))
            if t == ENV and path_fields(x)[-1:] != [] and fetched(x) is not None:
                self.eloops.add(fetched(x))
                names = {E.F.discr_of(ENV, w): w for w in E.F.variants(ENV)}
                return st._replace(env=names.get(val, '_') if isinstance(val, int) else '_')
            if x[0] == 'call' and short(x[1]) == 'next' and x[2] and val == 0 and self.prior:
                if x[2][0] in self.prior.hloops:
                    return st._replace(loop=None, done=True)
                if x[2][0] in self.prior.eloops:
                    return st._replace(env=None, pushed=False, empty=None, orig=None)
                return st._replace(item=None, empty=None)
            if leaf(x) == 'TestVacation.period':
                return st._replace(period=val if isinstance(val, int) else None)
            if leaf(x) == 'TestVacation.handle':
                return st._replace(handle=val if isinstance(val, int) else None)
            if x[0] == 'call' and short(x[1]) == 'as_text':
                return st._replace(absent=val == 0)
        if leaf(cond) == ORIG:
            v = 0 if val == 0 else 1
            if st.orig not in (None, v) or st.orig0 not in (None, v):
                return None
            return st._replace(orig=v, orig0=v) if st.env is None else st._replace(orig=v)
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
            eq = val != 0 if cond[1] == 'Eq' else val == 0
            for x, y in (cond[2:4], cond[3:1:-1]):
                if y[0] == 'v' and y[1] == ENV:
                    if fetched(x):
                        self.eloops.add(fetched(x))
                    return st._replace(env=y[2]) if eq else st._replace(env='_') if st.env is None else st
                if self.is_sender(x) and not mentions(y, 's'):
                    self.compared = True
                    self.bad(E, c, line, 'case', 'the user\'s addresses are compared to the sender in a way that depends on case')
                    return st._replace(own='yes') if eq else st
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        self.note(E, c, m)
        n = short(name)
        p = self.prior
        if n == 'next' and args and p:
            if args[0] in p.hloops:
                self.settle(E, c, st, line, args[0])
                return ('state', st._replace(loop='?', looked=False, no=frozenset(), is_=None, words=frozenset(), absent=False, low=False))
            if args[0] in p.eloops:
                self.settle_env(E, c, m, st, line)
                return ('state', st._replace(env='?', pushed=False, empty=None, orig=None))
            if st.item:
                self.settle_item(E, c, st, line)
                return ('state', st._replace(item=None, pushed=False, empty=None))
            return None
        if not args:
            return None
        a = args[0]
        if n == 'index' and len(args) > 1 and leaf(a) == PARTS and args[1] != ('i', 0):
            self.bad(E, c, line, 'part', 'the header of a part is looked at instead of that of the message')
        if n in SAME and a[0] in ('envval', 'sender', 'handle', 'reason', 'addr'):
            return [(st, a)]
        if n in SAME and fetched(a) is not None and a[0] == 'p' and a[2].lstrip('.') == '1' and st.env is not None:
            return [(st, ('envval', st.env))]
        if n in LOWER:
            if a == ('envval', 'From'):
                return [(st, SENDER)]
            if a[0] == 'sender':
                return [(st, a)]
            if VALUE in fields_in(a) or mentions(a, 'call'):
                return ('state', st._replace(low=True))
            return None
        if n == 'is_empty':
            if self.is_sender(a):
                return [(st, ('i', 1)), (st._replace(known=st.known | {'sender'}), ('i', 0))]
            if fetched(a) is not None and a[0] == 'p' and a[2].lstrip('.') == '1':
                return [(st._replace(empty=True), ('i', 1)), (st._replace(empty=False), ('i', 0))]
            if a[0] in ('envval', 'addr') or st.item and a[0] in ('ph', 'p', 'call'):
                return [(st._replace(empty=True), ('i', 1)), (st._replace(empty=False), ('i', 0))]
            if leaf(a) == 'Context.user_address':
                return [(st._replace(ua='empty'), ('i', 1)), (st, ('i', 0))]
            return None
        if n in ('push', 'insert', 'extend', 'append', 'push_back') and len(args) > 1:
            self.pushes += 1
            if any(leaf(x) == 'Context.user_address' or 'Context.user_address' in fields_in(x) for x in args[1:]):
                return ('state', st._replace(ua='pushed'))
            return ('state', st._replace(pushed=True))
        if len(args) > 1 and self.is_sender(a):
            w = const(args[1])
            if w in SENDERS and n in ('starts_with', 'contains', 'ends_with'):
                if n != SENDERS[w] and not (n == 'contains'):
                    return None
                if p and (a[0] == 'envval' or a[0] == 'ph' and a[3] in p.raw):
                    self.bad(E, c, line, 'case ' + w, 'senders with "%s" are only recognised in lower case' % w)
                return [(st, ('i', 1)), (st._replace(known=st.known | {w}), ('i', 0))]
        if n in ('eq_ignore_ascii_case', 'eq') and len(args) == 2:
            for x, y in (args, args[::-1]):
                if self.is_sender(x) and y[0] != 's':
                    self.compared = True
                    if n == 'eq':
                        return None
                    return [(st._replace(own='yes'), ('i', 1)), (st, ('i', 0))]
                w = const(y)
                if w is None:
                    continue
                if NAME in fields_in(x) or leaf(x) in (HN + '::Other.0',):
                    if n == 'eq':
                        self.bad(E, c, line, 'name case ' + w, 'the name of the %s field is compared in a way that depends on case' % w)
                    if w not in WORDS:
                        return None
                    if st.is_ is not None:
                        return [(st, ('i', 1 if st.is_ == w else 0))]
                    if w in st.no:
                        return [(st, ('i', 0))]
                    return [(st._replace(is_=w), ('i', 1)), (st._replace(no=st.no | {w}), ('i', 0))]
                if st.is_:
                    self.words.setdefault(st.is_, set()).add(w)
                    if n == 'eq' and not st.low:
                        self.bad(E, c, line, 'value case ' + st.is_, 'the %s field is compared in a way that depends on case' % st.is_)
                    return [(st._replace(words=st.words | {w}), ('i', 1)), (st, ('i', 0))]
            return None
        if n == 'contains' and len(args) == 2 and st.is_:
            ws = [const(x) for x in a[1]] if a[0] == 'arr' else [const(args[1])]
            ws = {w for w in ws if w}
            if ws:
                self.words.setdefault(st.is_, set()).update(ws)
                if not st.low:
                    self.bad(E, c, line, 'value case ' + st.is_, 'the %s field is compared in a way that depends on case' % st.is_)
                return [(st._replace(words=st.words | ws), ('i', 1)), (st, ('i', 0))]
            return None
        if n == 'find_addresses' and len(args) >= 4:
            self.ask += 1
            if args[2] != ('v', 'AddressPart', 'All', ()) and args[2][0] == 'v':
                self.bad(E, c, line, 'address part', 'recipients are compared by a part of their address')
            if args[3][0] == 'clo':
                self.searched.add(args[3][1])
            s = st._replace(looked=True)
            return [(s._replace(found=True), ('i', 1)), (s, ('i', 0))]
        if n == 'eval_value' and len(args) > 1:
            f = path_fields(args[1])
            if 'TestVacation.handle' in f:
                return [(st, ('handle',))]
            if 'TestVacation.reason' in f:
                return [(st, ('reason',))]
            if fetched(args[1]) is not None:
                return [(st._replace(item=True, pushed=False, empty=None), ('addr',))]
            return [(st, ('vague',))] if self.full else None
        if n in ('new_display', 'push_str', 'extend_from_slice', 'concat', 'join', 'new_debug') or n == 'add':
            d = set()
            for x in args:
                if self.is_sender(x):
                    d.add('sender')
                for w in ('handle', 'reason', 'vague'):
                    if mentions(x, w):
                        d.add(w)
            if d:
                return ('state', st._replace(disp=st.disp | d))
        return None

    def settle_env(self, E, c, m, st, line):
        if st.env is None or st.empty:
            return
        p = self.prior
        if not p.pushes or not self.full:
            return
        if st.env == '?' and st.empty is False:
            self.bad(E, c, line, 'lost part', 'a part of the envelope is passed over')
        if st.env in ('To', 'Orcpt'):
            orig = st.orig if st.orig is not None else st.orig0
            use = {'To': 0, 'Orcpt': 1}[st.env]
            if st.pushed and orig != use:
                self.bad(E, c, line, 'wrong %s' % st.env, 'the %s of the envelope counts as the user\'s against the settings' % st.env)
            if not st.pushed and orig in (None, use):
                self.bad(E, c, line, 'lost %s' % st.env, 'the %s of the envelope does not count as the user\'s' % st.env)

    def settle_item(self, E, c, st, line):
        if st.item and not st.pushed and not st.empty:
            self.bad(E, c, line, 'lost address', 'an address given with the command does not count as the user\'s')

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Event':
            f = dict(v[3])
            if v[2] == 'DuplicateId':
                self.out(E, c, st, line)
                self.dup(E, c, st, f, line)
            elif v[2] in ('SendMessage', 'Notify') and not self.full:
                self.out(E, c, st, line)
        elif v[1] == 'TestResult' and v[2] == 'Event':
            if dict(v[3]).get('is_not') == ('i', 0):
                self.bad(E, c, line, 'inverted', 'a reply goes out only when the embedder says that one was sent already')
        elif v[1] == 'TestResult' and v[2] == 'Bool' and self.full:
            if dict(v[3]).get('0') == ('i', 1):
                self.out(E, c, st, line)
                self.bad(E, c, line, 'unasked', 'a reply goes out without asking whether one was sent already')
        return st

    def dup(self, E, c, st, f, line):
        names = {E.F.discr_of('Period', w): w for w in E.F.variants('Period')}
        x = f.get('expiry')
        per = names.get(st.period)
        if x is not None and per:
            good = x[0] in ('ph', 'u', 'r')
            if per == 'Days':
                good |= x[0] == 'call' and short(x[1]) in ('mul', 'saturating_mul', 'wrapping_mul', 'checked_mul', 'unwrap_or') and \
                    'Period::Days.0' in fields_in(x) and mentions_int(x, 86400) or x[0] == 'bin' and x[1].startswith('Mul') and \
                    'Period::Days.0' in fields_in(x) and mentions_int(x, 86400)
                good |= x[0] == 'p' and mentions_int(x, 86400) and 'Period::Days.0' in fields_in(x)
            elif per == 'Seconds':
                good |= leaf(x) == 'Period::Seconds.0'
            else:
                good |= leaf(x) == 'Runtime.default_vacation_expiry'
            if not good:
                self.bad(E, c, line, 'expiry ' + per, 'the period in which only one reply is sent is not the one asked for')
        if f.get('last') == ('i', 1):
            self.bad(E, c, line, 'last', 'each message renews the period in which no reply is sent')
        if st.disp and self.prior and self.prior.roles:
            if 'sender' not in st.disp:
                self.bad(E, c, line, 'id sender', 'replies to one sender prevent those to others')
            if 'vague' not in st.disp:
                some = E.F.discr_of('Option', 'Some') if 'Option' in E.F.adts else 1
                want = 'handle' if st.handle == some else 'reason'
                if st.handle is not None and want not in st.disp:
                    self.bad(E, c, line, 'id ' + want, 'replies are told apart without the %s' % want)


def mentions_int(v, n):
    if v == ('i', n):
        return True
    return isinstance(v, tuple) and any(mentions_int(y, n) for y in v if isinstance(y, tuple))


class MatchRule(Rule):
    """a closure that tells whether an address is one of the user's."""

    def __init__(self, own):
        self.own = own
        self.asked = 0

    def relevant(self, F):
        return {self.own}

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n in ('eq_ignore_ascii_case', 'eq') and len(args) == 2:
            self.asked += 1
            return [('eq', ('i', 1)), ('ne' if st != 'eq' else st, ('i', 0))]
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            if v == ('i', 1) and st != 'eq':
                E.report('match', c.bid, line, 'an address that is not the user\'s counts as theirs')
            elif v == ('i', 0) and st == 'eq':
                E.report('match', c.bid, line, 'an address of the user does not count as theirs')
            elif v[0] == 'call' and short(v[1]) in ('contains', 'starts_with', 'ends_with'):
                E.report('match', c.bid, line, 'part of an address is taken for the address')
        return st


class SendRule(Rule):
    """the reply itself."""
    opaque = ()

    def __init__(self, own, mark, prior=None):
        self.own, self.mark, self.prior = own, mark, prior
        self.roles = {}
        self.raw = set()
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    note = HeadRule.note

    def on_branch(self, E, c, m, st, cond, val, line):
        self.note(E, c, m)
        env, marks, name, head = st
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == ENV:
            names = {E.F.discr_of(ENV, w): w for w in E.F.variants(ENV)}
            env = names.get(val, '_') if isinstance(val, int) else '_'
        elif cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
            eq = val != 0 if cond[1] == 'Eq' else val == 0
            for y in cond[2:4]:
                if y[0] == 'v' and y[1] == ENV:
                    env = y[2] if eq else '_'
        return (env, marks, name, head)

    def on_call(self, E, c, m, st, name, k, args, line):
        self.note(E, c, m)
        n = short(name)
        env, marks, nm, head = st
        if not args:
            return None
        a = args[0]
        if n == 'next':
            return ('state', ('?', marks, nm, head))
        if n in SAME and a[0] in ('envval', 'reason'):
            return [(st, a)]
        if n in SAME and fetched(a) is not None and a[0] == 'p' and a[2].lstrip('.') == '1' and env is not None:
            return [(st, ('envval', env))]
        if n == 'eval_value' and len(args) > 1 and 'Vacation.reason' in path_fields(args[1]):
            return [(st, ('reason',))]
        text = ''.join((x[1] if isinstance(x[1], str) else bytes(x[1]).decode('latin-1')) for x in args if x[0] in ('s', 'b')).lower()
        if n in ('with_capacity', 'new') or not text and not any(mentions(x, 'reason') for x in args[1:]):
            return None
        if name in self.local:
            return None if not (self.mark in text) else ('state', (env, marks if head else True, nm, head))
        if 'auto-submitted:' in text:
            nm = True
        if self.mark in text and nm and not head:
            marks = True
        if '\r\n\r\n' in text or any(mentions(x, 'reason') for x in args[1:]) and n not in ('len',):
            head = True
        return ('state', (env, marks, nm, head))

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Event' and self.prior is not None:
            f = dict(v[3])
            if v[2] == 'CreatedMessage':
                self.seen.add('made')
                if not st[1]:
                    E.report('unmarked ' + self.mark, c.bid, line, 'a message goes out without being marked as %s' % self.mark)
            elif v[2] == 'SendMessage':
                self.seen.add('sent')
                self.recipient(E, c, f.get('recipient'), line)
        return st

    def recipient(self, E, c, v, line):
        if self.mark != 'auto-replied' or v is None or v[0] != 'v':
            return
        if v[2] != 'Address':
            E.report('recipient', c.bid, line, 'a reply goes to others than the sender')
            return
        x = dict(v[3]).get('0')
        who = None
        if x and x[0] == 'envval':
            who = {x[1]}
        elif x and x[0] == 'ph' and len(x) == 4 and x[1] == self.own:
            who = self.prior.roles.get(x[3])
        elif x:
            i = strip(x)
            who = self.prior.roles.get(i) if i is not None else None
            if i is None and x[0] == 'p' and not fetched(x):
                who = {'?'}
        if who and who != {'From'}:
            E.report('recipient', c.bid, line, 'a reply goes to someone other than the sender in the envelope')


def strip(x):
    while x[0] == 'call' and short(x[1]) in SAME and x[2]:
        x = x[2][0]
    return x[3] if x[0] == 'ph' and len(x) == 4 else None


class OrderRule(Rule):
    """the instructions for a vacation command: (pushes so far, test at, jump at, target)."""

    def __init__(self, own):
        self.own = own
        self.n = 0

    def relevant(self, F):
        return {self.own}

    def on_call(self, E, c, m, st, name, k, args, line):
        n, test, jump, to = st
        s = short(name)
        if args and leaf(args[0]) == 'CompilerState.instructions':
            if s == 'len':
                return [(st, ('bin', 'Add', ('instructions',), ('i', n)) if n else ('instructions',))]
            if s == 'push' and len(args) > 1:
                v = args[1]
                if v[0] == 'v' and v[1] == 'Instruction':
                    if v[2] == 'Test':
                        x = dict(v[3]).get('0')
                        test = n if x and x[0] == 'v' and x[2] == 'Vacation' else None
                    elif v[2] == 'Jz':
                        jump, to = n, lin(dict(v[3]).get('0', ('u',)))
                    elif v[2] == 'Vacation':
                        self.n += 1
                        if test is None or jump is None or test + 1 != jump:
                            E.report('untested', c.bid, line, 'a reply is sent without testing whether it may be')
                        elif ('instructions',) in to and to != {('instructions',): 1, 1: n + 1}:
                            E.report('target', c.bid, line, 'the test whether a reply may be sent does not lead past the command that sends it')
                return ('state', (n + 1, test, jump, to))
        return None


# `to` is a dict: keep states hashable
_order = OrderRule.on_call


def _frozen(self, E, c, m, st, name, k, args, line):
    r = _order(self, E, c, m, (st[0], st[1], st[2], dict(st[3]) if st[3] is not None else {}), name, k, args, line)
    if r is None:
        return None

    def fr(s):
        return (s[0], s[1], s[2], tuple(sorted(s[3].items(), key=str)) if isinstance(s[3], dict) else s[3])
    if r[0] == 'state':
        return ('state', fr(r[1]))
    return [(fr(s), v) for s, v in r]


OrderRule.on_call = _frozen


class R12(FlowCheck):
    explanation = ('Follows the test that precedes an automatic reply through its loops over the envelope, the user\'s addresses and the header, '
                   'with a state that records what has been found out of the sender, the recipients and the field at hand; checks that the '
                   'question to the embedder is only reached with all of it settled, that no field that forbids a reply is passed over, how '
                   'the period and the key of the question are made, to whom a reply goes, and that it is marked as automatic.')

    def check(self, F):
        res = self.result()
        loops = {}
        for canon, full in (('TestVacation::exec', True), ('action_notify::Notify::exec', False)):
            b = F.fn(canon)
            p = HeadRule(b.id, full)
            self.simulate(F, p, [b.id], G0)
            p2 = HeadRule(b.id, full, p)
            self.simulate(F, p2, [b.id], G0)
            p3 = HeadRule(b.id, full, p2)
            self.simulate(F, p3, [b.id], G0, res)
            vague = p3.vague or not p2.hloops
            res.ob(1, p3.events > 0)
            if not p3.events:
                res.bad('%s silent' % canon, b.file, b.line, '%s: no reply is ever asked for or sent' % canon)
            if not vague:
                ls = [p3.passed.get(l, {}) for l in p2.hloops]
                for key in set.intersection(*[set(x) for x in ls]):
                    fn, line, msg = ls[0][key]
                    res.bad('%s %s' % (canon.split('::')[-2], key), b.file, line, '%s: %s' % (canon, msg))
                for n in (AUTO, SUPP, PREC) if full else (AUTO,):
                    for w in WORDS[n]:
                        if w not in p3.words.get(n, ()):
                            res.bad('%s %s word %s' % (canon.split('::')[-2], n, w), b.file, b.line,
                                    '%s: "%s" in a %s field is not looked for' % (canon, w, n))
            res.ob(len(LISTS) + len(ADDRS) + 14 if full else 2)
            for cl in sorted(p3.searched):
                r = MatchRule(cl)
                self.simulate(F, r, [cl], 'x', res)
                res.ob(1)
        for canon, mark in (('Vacation::exec', 'auto-replied'), ('action_notify::Notify::exec', 'auto-notified')):
            b = F.fn(canon)
            prior = None
            for i in range(3):
                r = SendRule(b.id, mark, prior)
                r.local = ()
                self.simulate(F, r, [b.id], (None, False, False, False), res if prior is not None and i == 2 else None)
                prior = r
            res.ob(2)
        b = F.fn('CompilerState::parse_vacation')
        r = OrderRule(b.id)
        self.simulate(F, r, [b.id], (0, None, None, None), res)
        res.ob(1, r.n > 0)
        if not r.n:
            res.bad('no reply', b.file, b.line, 'the vacation command compiles to nothing')
        return res
