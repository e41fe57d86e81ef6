"""R15: a reference stands for what it names."""
from base import FlowCheck, Rule
from engine import contains, fields_in, leaf
from r_map import lin

VT = 'VariableType'
PIECE = ('index', 'get', 'split_at', 'split_once', 'chars', 'first', 'last', 'take', 'starts_with', 'ends_with', 'strip_prefix')
UNK = ('ph', 'u', 'r', 'old')           # values that are not known
HOST = {'': 'Any', 'name': 'Name', 'ip': 'Ip'}
RCVD = {'ip': 'FromIp', 'iprev': 'FromIpRev', 'for': 'For', 'with': 'With', 'tls': 'TlsVersion', 'cipher': 'TlsCipher', 'id': 'Id', 'ident': 'Ident', 'via': 'Via',
        'date': 'Date', 'date.raw': 'DateRaw'}
ADDR = {'': 'All', 'addr': 'All', 'all': 'All', 'domain': 'Domain', 'local': 'LocalPart', 'localpart': 'LocalPart', 'user': 'User', 'detail': 'Detail', 'name': 'Name'}
HDR = {'': ('Text',), 'text': ('Text',), 'name': ('Address', 'Name'), 'type': ('ContentType', 'Type'), 'subtype': ('ContentType', 'Subtype'),
       'attr': ('ContentType', 'Attribute'), 'rcvd': ('Text',), 'id': ('Id',), 'raw': ('Raw',), 'raw_name': ('RawName',), 'date': ('Date',), 'exists': ('Exists',)}
BODY = {'text': ('Part', 'TextBody', 0), 'to_text': ('Part', 'TextBody', 1), 'html': ('Part', 'HtmlBody', 0), 'to_html': ('Part', 'HtmlBody', 1)}
PART = {'text': ('Part', 'Contents'), 'raw': ('Part', 'Raw')}
ENV = ('from', 'to', 'by_time_absolute', 'by_time_relative', 'by_mode', 'by_trace', 'notify', 'orcpt', 'ret', 'envid')
# what a part of a Received field is read from
READ = {'From': {'from', 'helo'}, 'FromIp': {'from_ip'}, 'FromIpRev': {'from_iprev'}, 'By': {'by'}, 'For': {'for_'}, 'With': {'with'}, 'TlsVersion': {'tls_version'},
        'TlsCipher': {'tls_cipher'}, 'Id': {'id'}, 'Ident': {'ident'}, 'Via': {'via'}, 'Date': {'date'}, 'DateRaw': {'date'}}
PLACE = {'Local': 'Context.vars_local', 'Match': 'Context.vars_match', 'Global': 'Context.vars_global', 'Environment': 'Context.vars_env', 'Envelope': 'Context.envelope'}
STORES = set(PLACE.values()) | {'Runtime.environment'}


def short(n):
    return n.rsplit('::', 1)[-1]


def camel(n):
    return ''.join(x[:1].upper() + x[1:] for x in n.split('_'))


def path(v):
    """the variants a value is made of, from the outside."""
    out = []
    while True:
        if v[0] == 'v':
            out.append(v[2])
            if len(v[3]) != 1:
                return tuple(out)
            v = v[3][0][1]
        elif v[0] == 'i':
            return tuple(out) + (v[1],)
        else:
            return tuple(out)


def literal(cond):
    """a text that a branch compares with."""
    if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
        for i in (2, 3):
            if cond[i][0] in ('s', 'b'):
                return cond[i][1], cond[1] == 'Eq', cond[5 - i]
    if cond[0] == 'call' and short(cond[1]) in ('eq', 'ne', 'eq_ignore_ascii_case') and len(cond[2] or ()) == 2:
        for i in (0, 1):
            if cond[2][i][0] in ('s', 'b'):
                return cond[2][i][1], short(cond[1]) != 'ne', cond[2][1 - i]
    return None


class NameRule(Rule):
    """state: the texts that the name is known to consist of."""
    opaque = ()

    def __init__(self, own, want):
        self.own, self.want = own, want
        self.seen = {}

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        t = literal(cond)
        if t and isinstance(val, int) and bool(val) == t[1]:
            return st + (t[0],) if len(st) < 4 else st
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        if v[0] == 'v' and v[2] == 'Ok':
            v = v[3][0][1]
        elif v[0] == 'v' and v[2] in ('Err', 'None'):
            return st
        if v[0] == 'v' and v[2] == 'Some':
            v = v[3][0][1]
        if st:
            self.seen.setdefault(st, set()).add((path(v), self.detail(v)))
        return st

    def detail(self, v):
        """is a text in the value the part of the name behind the dot?"""
        if v[0] == 'call' or v[0] == 'p':
            return any(short(x[1]) == 'parse_header_variable' for x in calls(v))
        return None


def calls(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'call' and isinstance(v[1], str):
            yield v
        for x in v:
            if isinstance(x, tuple):
                yield from calls(x)


def variable_names(st):
    if st[0] in ('global', 't'):
        return ('Global',)
    if st[0] == 'env':
        return ('Environment',)
    if st[0] == 'header':
        return ()
    if st[0] == 'envelope' and len(st) > 1 and st[1] in ENV:
        return 'Envelope', camel(st[1])
    if st[0] in ('body', 'part') and len(st) > 1:
        return (BODY if st[0] == 'body' else PART).get(st[1])
    return None


def header_names(st):
    if st[0] in HDR and len(st) == 1 and st[0] != 'rcvd' or st == ('rcvd',):
        return HDR[st[0]]
    if st[0] == 'addr':
        n = st[-1] if len(st) > 1 else ''
        n = n[5:] if n.startswith('addr.') else n
        return ('Address', ADDR[n]) if n in ADDR else None
    if st[0] == 'rcvd':
        return ('Received',) + received(st[-1])
    return None


def received(n):
    if n in RCVD:
        return (RCVD[n],)
    a, _, b = n.partition('.')
    if a in ('from', 'by') and b in HOST:
        return a.capitalize(), HOST[b]
    return ('?',)


class VarRule(Rule):
    """where the value of a variable is read from.
    state: what is known of the reference, of the lookups."""
    opaque = ()
    split_max = 3

    def __init__(self, own):
        self.own = own
        self.seen = {}

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int):
            a = E.adt_of.get(cond[1])
            if a in (VT, 'MessagePart', 'mail_parser::PartType'):
                n = E.F.variant_by_discr(a, val)
                return st | {(a, n)} if n else st
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and isinstance(val, int) and '%s::Envelope.0' % VT in fields_in(cond):
            return st - {'same', 'other'} | {'same' if bool(val) == (cond[1] == 'Eq') else 'other'}
        if cond[0] == 'p' and cond[2] in ('MessagePart::TextBody.0', 'MessagePart::HtmlBody.0') and isinstance(val, int):
            return st | {('convert', val)}
        if cond[0] == 'p' and cond[2] in ('MessagePart::TextBody.0', 'MessagePart::HtmlBody.0'):
            return st | {('convert', 1)}
        return st

    def arm(self, st):
        d = dict(x for x in st if isinstance(x, tuple))
        return d.get(VT), d.get('MessagePart'), d.get('convert')

    def on_call(self, E, c, m, st, name, k, args, line):
        if args and leaf(args[0]) == 'Context.vars_env':
            return ('state', st | {'asked'})
        if short(name) == 'next' and st & {'same', 'other'}:
            return ('state', st - {'same', 'other'})
        if short(name) in ('html_to_text', 'text_to_html'):
            arm, part, convert = self.arm(st)
            if convert != 1 or part != ('TextBody' if short(name) == 'html_to_text' else 'HtmlBody'):
                E.report('converted', c.bid, line, 'a body is converted without being asked for')
        if short(name) == 'get' and len(args) == 2 and args[1][0] == 'v' and args[1][2].startswith('Range') and self.arm(st)[1] == 'Raw':
            if args[1][2] == 'Range':
                a, b = (x[1] for x in args[1][3])
                good = any('body_offset' in x[1] for x in calls(a)) and any('end_offset' in x[1] for x in calls(b)) and \
                    'Context.part' in fields_in(a) and 'Context.part' in fields_in(b)
                self.ob(E, c, good, 'raw', line, 'the raw contents are not those of the part')
        return None

    obs = ()

    def ob(self, E, c, good, key, line, msg):
        if not good:
            E.report(key, c.bid, line, msg)

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        arm, part, convert = self.arm(st)
        if not arm or v[0] == 'v' and v[2] == 'None':
            return st
        fs = set(fields_in(v))
        names = {short(x[1]) for x in calls(v)}
        places = fs & STORES
        good = None
        if not any(x.startswith('Context.') for x in fs) and any(x in str(v) for x in ("('ph'", "('r'", "('u'", "('loc'")):
            self.seen[part or arm] = self.seen.get(part or arm, 0) + 1
            return st                                       # not understood
        if arm in PLACE:
            if arm == 'Environment' and places == {'Runtime.environment'}:
                good = 'asked' in st
                self.seen.setdefault('Environment of the runtime', 0)
            elif arm == 'Envelope':
                good = not places - {PLACE[arm]} and ('next' not in names or 'same' in st)
            else:
                good = places == {PLACE[arm]}
            good = good and ('%s::%s.0' % (VT, arm) in fs)
        elif arm == 'Header':
            good = not places and ('eval_header' not in names or '%s::Header.0' % VT in fs)
        elif part in ('TextBody', 'HtmlBody'):
            mine, other = ('text', 'html') if part == 'TextBody' else ('html', 'text')
            lists = {x for x in fs if x.endswith(('Message.text_body', 'Message.html_body'))}
            good = not places and all(x.endswith(mine + '_body') for x in lists)
            direct = {x for x in fs if '::PartType::' in x or x.startswith('PartType::')}
            conv = '%s_to_%s' % (other, mine)
            kinds = {x.rsplit('::', 1)[-1].split('.')[0].lower() for x in direct}
            if conv in names:
                good = good and convert == 1 and kinds <= {other}
            else:
                good = good and kinds <= {mine} and not names & {'html_to_text', 'text_to_html'}
        elif part in ('Contents', 'Raw'):
            good = not places and not any(x.endswith(('.text_body', '.html_body')) for x in fs) and ('Context.part' in fs or part == 'Raw' and not fs & {'Context.message'})
        else:
            return st
        self.seen[part or arm] = self.seen.get(part or arm, 0) + 1
        if not good:
            E.report('%s' % (part or arm), c.bid, line, 'a reference to %s is read from another place' % (part or arm))
        return st


class SetRule(Rule):
    """where a variable is set."""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == VT and isinstance(val, int):
            return E.F.variant_by_discr(VT, val) or st
        return st

    def touch(self, E, c, st, arm, args, line, f):
        good = st == arm and any('%s::%s.0' % (VT, arm) in fields_in(x) for x in args)
        self.seen.add(arm)
        if not good:
            E.report('set %s' % arm, c.bid, line, 'a variable is set in another place than it is read from (%s)' % f)

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        f = leaf(args[0]) if args else None
        if n == 'add_set_envelope_event':
            self.touch(E, c, st, 'Envelope', args[1:2], line, 'envelope')
            return [(st, ('t', ()))]
        for arm, place in PLACE.items():
            if f == place and n in ('insert', 'get_mut', 'entry', 'index_mut', 'push') and c.bid == self.own:
                self.touch(E, c, st, arm, args[1:2], line, place)
        return None


class EnvRule(Rule):
    """state: (the element at hand is the one, was it kept?)"""
    opaque = ()
    split_max = 3

    def __init__(self, own):
        self.own = own
        self.done = 0

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and isinstance(val, int) and ('arg', self.own, 1) in cond[2:]:
            return (bool(val) == (cond[1] == 'Eq'), st[1])
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'next' and st[0]:
            return ('state', (False, st[1]))
        if n == 'push' and args and leaf(args[0]) == 'Context.envelope':
            good = args[1][0] != 't' or args[1][1][0] == ('arg', self.own, 1) and contains(args[1][1][1], ('arg', self.own, 2))
            self.done += 1
            if not good or st[1]:
                E.report('envelope', c.bid, line, 'another part of the envelope is set, or another value')
            return ('state', (False, True))
        return None

    def on_store(self, E, c, m, st, loc, v, line):
        if any(x[0] == 'call' and short(x[1]) in ('next', 'find') for x in calls(loc)) and contains(v, ('arg', self.own, 2)):
            self.done += 1
            if not st[0] and not any(short(x[1]) == 'find' for x in calls(loc)):
                E.report('envelope', c.bid, line, 'another part of the envelope is set')
            return (st[0], True)
        return st

    def on_agg(self, E, c, m, st, v, line):
        if v[0] == 'v' and v[1] == 'Event' and v[2] == 'SetEnvelope':
            d = dict(v[3])
            if d['envelope'] != ('arg', self.own, 1) or not contains(d['value'], ('arg', self.own, 2)):
                E.report('envelope event', c.bid, line, 'another part of the envelope is handed to the embedder')
        return st


class IndexRule(Rule):
    """state: (sign of the index of the field, of the index of the part, what is known of the reference)"""
    opaque = ()
    F1, F2 = 'HeaderVariable.index_hdr', 'HeaderVariable.index_part'

    def __init__(self, own, more):
        self.own, self.more = own, more
        self.seen = set()
        self.uses = 0

    def relevant(self, F):
        return {self.own} | self.more

    def which(self, v):
        fs = set(fields_in(v)) & {self.F1, self.F2}
        return fs.pop() if len(fs) == 1 else None

    def on_branch(self, E, c, m, st, cond, val, line):
        h, p, kn = st
        if cond[0] == 'bin' and any('Header.offset' in x for x in fields_in(cond)):
            return h, p, kn | {('guard', 1)}
        if cond[0] == 'discr' and isinstance(val, int):
            a, x = E.adt_of.get(cond[1]), cond[1]
            if a == 'Ordering' and x[0] == 'call' and short(x[1]) == 'cmp' and x[2][1] == ('i', 0) and x[2][0][0] == 'p':
                s = {-1: '<', 0: '=', 1: '>', 255: '<'}.get(val)
                return (s, p, kn) if x[2][0][2] == self.F1 else (h, s, kn) if x[2][0][2] == self.F2 else st
            if x[0] == 'call' and short(x[1]) == 'next' and c.bid == self.own:
                return h, p, frozenset(y for y in kn if y[0] != 'loop') | {('loop', val)}
            if a in ('HeaderPart', 'ContentTypePart'):
                n = E.F.variant_by_discr(a, val)
                return (h, p, frozenset(y for y in kn if y[0] != a) | {(a, n)}) if n else st
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne', 'Gt', 'Lt', 'Ge', 'Le') and isinstance(val, int) and cond[3] == ('i', 0) and cond[2][0] == 'p':
            op = cond[1]
            neg = {'Eq': 'Ne', 'Ne': 'Eq', 'Gt': 'Le', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt'}
            if not val:
                op = neg[op]
            i = 0 if cond[2][2] == self.F1 else 1 if cond[2][2] == self.F2 else None
            if i is None:
                return st
            may = {'Eq': '=', 'Ne': '<>', 'Gt': '>', 'Lt': '<', 'Ge': '=>', 'Le': '<='}[op]
            now = ''.join(x for x in (st[i] or '<=>') if x in may)
            if not now:
                return None
            return (now, p, kn) if i == 0 else (h, now, kn)
        return st

    def on_assert(self, E, c, m, st, kind, ops, line):
        if 'verflow' in str(kind) and ops and any('Header.offset' in x for x in fields_in(ops[0])) and ('guard', 1) not in st[2] and ops[1][0] == 'i':
            E.report('place', c.bid, line, 'the place of a field in the message is reduced without a look at whether it has one')
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        f = self.which(args[1]) if n in ('nth', 'nth_back', 'get', 'skip') and len(args) == 2 else None
        if f is not None:
            src = E.read(m, args[0]) if args[0][0] == 'loc' else args[0]
            back = any(short(x[1]) == 'rev' for x in calls(src)) != (n == 'nth_back')
            terms = lin(args[1])
            sign = st[0] if f == self.F1 else st[1]
            off = terms.pop(1, 0)
            good = len(terms) == 1 and off == -1
            if good:
                (t, k2), = terms.items()
                inner = short(t[1]) if t[0] == 'call' else ''
                if inner in ('unsigned_abs', 'abs'):
                    good = k2 == 1 and sign == ('<' if back else '>')
                elif t[0] == 'p':
                    good = (k2, sign) == ((-1, '<') if back else (1, '>'))
                else:
                    good = False
            headers = any(x.endswith('MessagePart.headers') for x in fields_in(src))
            values = any('Header.value' in x or 'Header.offset' in x for x in fields_in(src))
            if headers and f != self.F1 or values and not headers and f != self.F2:
                E.report('which', c.bid, line, 'the index of the field is taken for that of the part, or the other way')
            self.uses += 1
            if good:
                self.seen.add((f, back))
            else:
                E.report('index', c.bid, line, 'an index counts from another place')
        if n in ('take', 'skip', 'step_by', 'take_while', 'skip_while', 'map_while') and args and any(
                x.endswith('MessagePart.headers') or 'Header.value' in x for x in fields_in(E.read(m, args[0]) if args[0][0] == 'loc' else args[0])):
            E.report('some', c.bid, line, 'not all fields or parts are gone through')
        kn = dict(st[2])
        if n == 'get' and len(args) == 2 and args[1][0] == 'v' and args[1][2] == 'Range':
            a, b = (x[1] for x in args[1][3])
            part = kn.get('HeaderPart')
            fa = {x.split('.')[-1] for x in fields_in(a)} & {'offset_field', 'offset_start', 'offset_end'}
            fb = {x.split('.')[-1] for x in fields_in(b)} & {'offset_field', 'offset_start', 'offset_end'}
            la, lb = lin(a).get(1, 0), lin(b).get(1, 0)
            if part == 'RawName':
                good = fa == {'offset_field'} and fb == {'offset_start'} and la == 0 and lb == -1
            elif c.bid == self.own and self.own.endswith('eval_header') and part == 'Raw':
                good = fa == {'offset_field'} and fb == {'offset_end'} and not la and not lb
            else:
                good = fa == {'offset_start'} and fb == {'offset_end'} and not la and not lb
            if (fa or fb) and not good:
                E.report('range', c.bid, line, 'another part of the message is read')
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and ('loop', 1) in st[2]:
            E.report('some', c.bid, line, 'not all fields or parts are gone through')
        if c.bid == self.own and v[0] == 'call' and short(v[1]) == 'pop':
            if '=' in (st[0] or '=') or '=' in (st[1] or '='):
                E.report('one of all', c.bid, line, 'a reference to all fields or parts gives a single one')
        return st


class ReadRule(Rule):
    """state: the part of a Received field."""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.seen = {}

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and E.adt_of.get(cond[1]) == 'ReceivedPart' and isinstance(val, int):
            return E.F.variant_by_discr('ReceivedPart', val) or st
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if st and 'mail_parser::Received>::' in name:
            self.seen.setdefault(st, {})[short(name)] = line
        return None


class HostRule(Rule):
    """the name or address of a host."""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if cond[0] == 'discr' and isinstance(val, int):
            a = E.adt_of.get(cond[1]) or ''
            if a.rsplit('::', 1)[-1] in ('ReceivedHostname', 'Host'):
                n = E.F.variant_by_discr(a, val)
                return st | {(a.rsplit('::', 1)[-1], n)} if n else st
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and v[0] == 'v' and v[2] == 'Some':
            d = dict(st)
            what, host = d.get('ReceivedHostname'), d.get('Host')
            if what in ('Name', 'Ip') and host != {'Name': 'Name', 'Ip': 'IpAddr'}[what]:
                E.report('host %s' % what, c.bid, line, 'the %s of a host is read from another' % what.lower())
            self.seen.add(what)
        return st


class SameRule(Rule):
    """a closure that looks for one of several. state: is it the one?"""
    opaque = ()

    def __init__(self, own):
        self.own = own
        self.out = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        if isinstance(val, int):
            if cond[0] in ('bin', 'call') and (any(short(x[1]) in PIECE for x in calls(cond)) or "'Range" in str(cond)):
                return st if st is False else 'piece'
            if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne'):
                return bool(val) == (cond[1] == 'Eq')
            if cond[0] == 'call' and short(cond[1]) in ('eq', 'ne', 'eq_ignore_ascii_case'):
                return bool(val) == (short(cond[1]) != 'ne')
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own:
            compared = v[0] == 'bin' and v[1] or v[0] == 'call' and short(v[1]) or ''
            self.out.add((st, v[2] if v[0] == 'v' else None, compared, line, frozenset(short(x[1]) for x in calls(v)), frozenset(fields_in(v))))
        return st


def local(v):
    if v[0] == 'hv' and v[1][0] == 'loc':
        v = v[1]
    return v[2] if v[0] == 'loc' else v[3] if v[0] == 'ph' and len(v) == 4 else None


class HdrRule(Rule):
    """the pieces of the name of a header field.
    state: (kind of piece, what is known of the pieces)"""
    opaque = ()
    split_max = 3

    def __init__(self, own):
        self.own = own
        self.roles = {}
        self.aggs = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        kind, kn = st
        if cond[0] == 'discr' and short(E.adt_of.get(cond[1]) or '') == 'State' and isinstance(val, int):
            return E.F.variant_by_discr(E.adt_of.get(cond[1]), val), kn
        if local(cond) is not None and val in (0, 1) and kind is None and E.bi(c.bid).b.locals[local(cond)][0] == ['prim', 'bool'] and c.bid == self.own:
            return kind, frozenset(x for x in kn if x[0] != 'any') | {('any', val)}
        t = literal(cond)
        if t and isinstance(val, int) and local(t[2]) is not None:
            if bool(val) == t[1]:
                return kind, kn | {(local(t[2]), t[0])}
            return st
        if cond[0] == 'call' and cond[1] == 'index_of' and val == 0:
            return kind, kn | {(cond[2][0][1], 'zero')}
        if cond[0] == 'call' and short(cond[1]) == 'is_empty' and kind is None and cond[2] and local(cond[2][0]) is not None and val == 1:
            return kind, kn | {(local(cond[2][0]), '')}
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and cond[2][0] == 'call' and cond[2][1] == 'index_of' and cond[3] == ('i', 0) and isinstance(val, int):
            return (kind, kn | {(cond[2][2][0][1], 'zero')}) if bool(val) == (cond[1] == 'Eq') else st
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n = short(name)
        if n == 'push' and len(args) == 2 and c.bid == self.own and args[0][0] == 'loc' and any(short(x[1]) == 'next' for x in calls(args[1])) and st[0]:
            self.roles.setdefault(st[0], {})[args[0][2]] = line
        if n == 'next' and c.bid == self.own:
            return ('state', (None, frozenset()))
        if n == 'parse' and args and local(args[0]) is not None and 'HeaderName' not in name:
            l = local(args[0])
            return [((st[0], st[1] | {(l, 'number')}), ('v', 'Result', 'Ok', (('0', ('call', 'index_of', (('i', l),), None)),))),
                    (st, ('v', 'Result', 'Err', (('0', ('u',)),)))]
        return None

    def on_agg(self, E, c, m, st, v, line):
        if v[0] == 'v' and v[1] == 'HeaderVariable':
            d = dict(v[3])
            self.aggs.add((st[1], d['index_hdr'], d['index_part'], d['part'], line))
        return st


class R15(FlowCheck):
    explanation = (
        'The functions that turn the text of a reference into what it names are run through on the symbolic engine, and every text that is compared with is set against '
        'the variant that results, by a table of all names; those that read a reference have to read it from the one place that its kind stands for, under the key '
        'in it, the environment of the run before that of the runtime, and a conversion only where it is asked for; those that set a variable have to do so '
        'where it is read. An index counts from the front minus one if it is positive and from the back if it is negative, that of the field over fields and that of '
        'the part over values, and each part of a Received field is read from its own accessor.')

    def check(self, F):
        res = self.result()
        self.names(F, res)
        self.headers(F, res)
        self.reads(F, res)
        self.sets(F, res)
        self.indexes(F, res)
        return res

    def names(self, F, res):
        for canon, want, must in (
                ('CompilerState::parse_variable', variable_names, [[('global',), ('t',), ('env',), ('header',)], [('envelope', x) for x in ENV], [('body', x) for x in BODY], [('part', x) for x in PART]]), ('HeaderPart as TryFrom::try_from', header_names, [[(x,) for x in HDR] + [('addr',)] + [('addr', x) for x in ('domain', 'local', 'user', 'detail')]]),
                ('ReceivedPart as TryFrom::try_from', lambda st: received(st[-1]), [[(x,) for x in RCVD if x != 'via'] + [(x + y,) for x in ('from', 'by') for y in ('', '.name', '.ip')]]),
                ('AddressPart as TryFrom::try_from', lambda st: (ADDR.get(st[-1][5:] if st[-1].startswith('addr.') else st[-1], '?'),), [])):
            for b in [x for x in F.bodies.values() if x.kind == 'fn' and x.canon == canon]:
                r = NameRule(b.id, want)
                self.simulate(F, r, [b.id], (), res)
                for st, got in sorted(r.seen.items()):
                    w = want(st)
                    for p, d in sorted(got, key=str):
                        if not p and d is None:
                            continue
                        ok = w is None or p[:len(w)] == w
                        res.ob(1, ok)
                        if not ok:
                            res.bad('name %s' % '.'.join(st), b.file, b.line, '%s: the name %s stands for %s' % (b.canon, '.'.join(st), ' '.join(map(str, p)) or 'nothing'))
                known = {st for st in r.seen if want(st) is not None}
                for group in must:
                    miss = [x for x in group if not any(st[:len(x)] == x or st[0] == '.'.join(x) for st in known)]
                    ok = not miss or len(miss) == len(group)
                    res.ob(len(group), ok)
                    for x in miss if not ok else ():
                        res.bad('names %s' % '.'.join(x), b.file, b.line, '%s: the name %s is not understood any more' % (b.canon, '.'.join(x)))

    def reads(self, F, res):
        for canon, must in (('Context::variable', {'Local', 'Match', 'Global', 'Environment', 'Envelope', 'Header', 'TextBody', 'HtmlBody', 'Contents', 'Raw', 'Environment of the runtime'}),
                            ('Context::get_variable', {'Local', 'Global', 'Envelope'})):
            b = F.fn(canon)
            r = VarRule(b.id)
            self.simulate(F, r, [b.id], frozenset(), res)
            res.ob(len(must), True)
            for x in sorted(must - set(r.seen)):
                res.ob(1, False)
                res.bad('%s %s' % (canon, x), b.file, b.line, '%s: a reference to %s is not read' % (b.canon, x))
            for k in [x for x in F.bodies.values() if x.kind == 'closure' and F.root_fn(x.id).id == b.id]:
                r = SameRule(k.id)
                self.simulate(F, r, [k.id], '', res)
                ok = not any(st != '' and kind in ('Some', 'None') and st != (kind == 'Some') or kind is None and how in ('Ne', 'ne') for st, kind, how, line, cs, fs in r.out)
                res.ob(1, ok)
                if not ok:
                    res.bad('looked up %s' % canon, k.file, k.line, '%s: another one is taken than the one that is named' % b.canon)
        for canon in ('Context::eval_header', 'HeaderVariable::eval_part'):
            for k in [x for x in F.bodies.values() if x.kind == 'closure' and F.root_fn(x.id).canon == canon]:
                r = SameRule(k.id)
                self.simulate(F, r, [k.id], '', res)
                ok = not any(any(f.endswith('Attribute.value') for f in fs) and kind == 'Some' and st is not True or any(
                    f.endswith('Attribute.name') for f in fs) and kind is None and how not in ('Eq', 'eq', 'eq_ignore_ascii_case') for st, kind, how, line, cs, fs in r.out) and not any(
                    any(f.endswith('HeaderVariable.name') for f in fs) and (cs & {'first', 'last', 'get', 'nth'} or how in ('Eq', 'Ne', 'eq', 'ne')) for st, kind, how, line, cs, fs in r.out)
                res.ob(1, ok)
                if not ok:
                    res.bad('looked up %s' % canon, k.file, k.line, '%s: another one is taken than the one that is named' % canon)
        b = F.fn('ReceivedHostname::to_variable')
        r = HostRule(b.id)
        self.simulate(F, r, [b.id], frozenset(), res)
        for x in sorted({'Name', 'Ip', 'Any'} - r.seen):
            res.bad('host %s' % x, b.file, b.line, '%s: the %s of a host is not read' % (b.canon, x.lower()))
        res.ob(3, len(r.seen) == 3)
        b = F.fn('ReceivedPart::eval')
        r = ReadRule(b.id)
        self.simulate(F, r, [b.id], '', res)
        for part, names in sorted(r.seen.items()):
            ok = set(names) <= READ.get(part, set(names))
            res.ob(1, ok)
            if not ok:
                res.bad('received %s' % part, b.file, max(names.values()), '%s: the %s of a Received field is read from %s' % (b.canon, part, ', '.join(sorted(names))))

    def headers(self, F, res):
        b = F.fn('CompilerState::parse_header_variable')
        r = HdrRule(b.id)
        self.simulate(F, r, [b.id], (None, frozenset()), res)
        roles = {}
        for kind in ('Index', 'Part', 'PartIndex'):
            ls = r.roles.get(kind, {})
            if len(ls) == 1:
                roles[kind], = ls
            elif len(ls) > 1:
                res.bad('piece %s' % kind, b.file, max(ls.values()), '%s: a piece of the name goes to two places' % b.canon)
        if len(roles) < 3 and len({k for k in r.roles}) < 4:
            return                                          # another way of reading the name
        ok = len(set(roles.values())) == 3
        res.ob(1, ok)
        if not ok:
            res.bad('pieces', b.file, b.line, '%s: two pieces of the name go to the same place' % b.canon)
            return
        for kn, ih, ip, part, line in r.aggs:
            for field, kind, v in (('index_hdr', 'Index', ih), ('index_part', 'PartIndex', ip)):
                l = roles[kind]
                facts = {x for y, x in kn if y == l}
                if '' in facts:
                    ok = v == ('i', 0 if ('any', 1) in kn else -1) or v[0] in UNK
                elif '*' in facts:
                    ok = v == ('i', 0) or v[0] in UNK
                elif 'number' in facts:
                    ok = v == ('i', 1) if 'zero' in facts else v == ('call', 'index_of', (('i', l),), None) or v[0] in UNK
                else:
                    ok = v[0] in UNK
                res.ob(1, ok)
                if not ok:
                    res.bad('value of %s' % field, b.file, line, '%s: the index %s gets another value than is written' % (b.canon, field))
            if part[0] == 'p':
                ok = any(local(x) == roles['Part'] for y in calls(part) for x in y[2] or ())
                res.ob(1, ok)
                if not ok:
                    res.bad('value of part', b.file, line, '%s: the part is read from another piece' % b.canon)

    def sets(self, F, res):
        b = F.fn('Context::set_variable')
        r = SetRule(b.id)
        self.simulate(F, r, [b.id], '', res)
        for x in ('Local', 'Global', 'Envelope'):
            res.ob(1, x in r.seen)
            if x not in r.seen:
                res.bad('set %s' % x, b.file, b.line, '%s: a %s variable is not set' % (b.canon, x))
        b = F.fn('Context::add_set_envelope_event')
        r = EnvRule(b.id)
        self.simulate(F, r, [b.id], (False, False), res)
        res.ob(1, r.done > 1)
        if r.done < 1:
            res.bad('envelope', b.file, b.line, '%s: the envelope is not set' % b.canon)

    def indexes(self, F, res):
        a, b = F.fn('Context::eval_header'), F.fn('HeaderVariable::eval_part')
        seen = set()
        for x in (a, b):
            r = IndexRule(x.id, {x.id})
            self.simulate(F, r, [x.id], (None, None, frozenset()), res)
            seen |= r.seen
            res.ob(r.uses, not res.violations)
        for f in (IndexRule.F1, IndexRule.F2):
            for back in (False, True):
                ok = (f, back) in seen
                res.ob(1, ok)
                if not ok:
                    res.bad('index %s' % f, a.file, a.line, '%s: %s is not counted from the %s' % (a.canon, f, 'back' if back else 'front'))
