"""C14: the text of a string around references to variables is kept."""
from collections import namedtuple
from base import FlowCheck, Rule
from engine import leaf, contains, fields_in, root
from r_jumps import calls_in
from r_lex import known, learn
from r_map import lin

TOPI = (1 << 64) - 1
ST = 'string::State'
SIZE = ST + '::Encoded.initial_buf_size'
SIZE0 = ('p', ('i', 0), 'size of the text before')
UNI = ST + '::Encoded.is_unicode'

# mode0, mode: state in which the byte was read, and now | act: what became of the byte | ch, last: what is known of it and of the
# one before | flush: is the text before it with the items? | dec: an encoded character was added | trim: what was decoded is cut off |
# hex: are digits pending? | uni: kind of encoding | word: keyword compared | res: outcome of reading a reference | named: its name was
# taken | dif: something was decoded | n: number of items
G = namedtuple('G', 'mode0 mode act ch last flush dec trim hex uni word res named dif n end full')
G0 = G(None, 'None', None, None, None, 'clear', None, False, None, None, None, None, False, None, None, False, False)


def name_of(n):
    return n.rsplit('::', 1)[-1]


class TextRule(Rule):
    """the loop over the bytes of a string."""

    def __init__(self, own, prior=None):
        self.own = own
        self.prior = prior          # roles of local variables, found by an earlier pass
        self.start = {}             # hold the first position of a reference
        self.digit = set()          # hold the first position of hex digits
        self.lastl = None           # hold the byte before
        self.held = set()           # live from one byte to the next
        self.flags = set()          # change while a reference is read
        self.cleared = None
        self.met = set()
        self.loops = 0
        self.final = set()

    def relevant(self, F):
        return {self.own}

    def split_on(self, b):
        # flags that are about one byte only
        return [i for i, l in enumerate(b.locals) if l[1] is not None and i > b.argc and l[0] == ['prim', 'bool'] and
                i not in self.prior.held] if b.id == self.own and self.prior else ()

    # ------------------------------------------------------------ values
    def is_ch(self, v):
        if v[0] == 'p' and v[2].lstrip('.') == '1' and self.fetched(v[1]):
            return True
        if v[0] == 'p' and v[2] == 'Option::Some.0' and v[1][0] == 'call' and name_of(v[1][1]) in ('get', 'next') and v[1][2] and \
                (root(v[1][2][0]) == ('arg', self.own, 1) or name_of(v[1][1]) == 'next'):
            return True
        return root(v) == ('arg', self.own, 1) and v[0] != 'arg' and not any(y[1] == 'len' or name_of(y[1]) in ('len', 'index') for y in calls_in(v))

    def fetched(self, v):
        return v[0] == 'p' and v[2] == 'Option::Some.0' and v[1][0] == 'call' and name_of(v[1][1]) == 'next'

    def was_pos(self, v):
        return v[0] == 'p' and v[2].lstrip('.') == '0' and self.was(v[1])

    def was_ch(self, v):
        return v[0] == 'p' and v[2].lstrip('.') == '1' and self.was(v[1])

    def was(self, v):
        return v[0] == 'p' and v[2] == 'Option::Some.0' and v[1][0] == 'old' and v[1][1][0] == 'call' and name_of(v[1][1][1]) == 'next'

    def is_pos(self, v):
        return v[0] == 'p' and v[2].lstrip('.') == '0' and self.fetched(v[1])

    def local(self, v):
        return v[3] if v[0] == 'ph' and len(v) == 4 and v[1] == self.own else None

    def user(self, E, c, m):
        """(index, value) of the named local variables."""
        b = E.F.bodies[self.own]
        info = E.bi(self.own)
        return [(i, m.get(info.loc[i])) for i in range(len(b.locals)) if b.locals[i][1] is not None and i > b.argc]

    def bad(self, E, c, line, key, msg):
        if self.prior:
            E.report(key, c.bid, line, msg)

    # ------------------------------------------------------------ a byte is done with
    def settle(self, E, c, m, st, line):
        if st.mode0 is None:
            return
        if st.flush == 'taken':
            self.bad(E, c, line, 'taken', 'text is dropped')
        self.met.add((st.mode0, st.mode, st.act))

        def bad(key, msg):
            self.bad(E, c, line, key, msg)
        vals = [(i, v) for i, v in self.user(E, c, m) if v]
        eq = {i for i, v in vals if self.is_ch(v)}
        self.lastl = eq if self.lastl is None else self.lastl & eq
        p = self.prior
        off = {}
        for i, v in vals:
            x = lin(v)
            t = [t for t in x if t != 1]
            if len(t) == 1 and x[t[0]] == 1 and self.is_pos(t[0]):
                off[i] = x.get(1, 0)
        one = [off, {i for i in off if off[i] == 0}]
        tops = {i for i, v in vals if v == ('i', TOPI)}
        if p and not (p.lastl and eq & p.lastl):
            bad('last byte', 'the byte before is not remembered: $ and { that are not side by side may open a reference')
        if st.mode0 == 'None':
            if st.mode == 'Variable':
                self.start.update(off)
                if st.act != 'popped':
                    bad('opened', 'a reference begins without a dollar sign and a brace, or the dollar sign is part of the text too')
                if p:
                    if not any(p.start.get(i) == off[i] for i in off):
                        bad('start', 'the first position of a reference is not noted')
                    for i, v in vals:
                        if i in p.flags and v[0] != 'i':
                            bad('flag %s' % E.F.bodies[self.own].locals[i][1], 'what is known of one reference is taken over to the next')
            elif st.mode != 'None':
                bad('mode', 'an encoded character begins within text')
            elif st.act != 'push':
                bad('text', 'a byte of the text around references is lost' if st.act is None else
                    'a byte of the text around references is replaced')
            return
        if p:
            for i, v in vals:
                if i in p.start and st.mode != 'None' and self.local(v) != i and not any(self.was_pos(t) for t in lin(v) if t != 1):
                    bad('start moved', 'the first position of a reference changes')
        self.digit |= one[1]
        self.cleared = tops if self.cleared is None else self.cleared | tops
        if st.act == 'restored':
            if st.mode != 'None':
                bad('mode', 'a byte is kept twice')
            if st.mode0 == 'Encoded' and not st.trim:
                bad('trim', 'characters decoded before an error stay although the text is kept as it is')
            if st.res == 'ok':
                bad('kept twice', 'a recognised reference is kept as text too')
            if p and not p.hexes <= tops:
                bad('digits', 'digits of one encoded character are taken over to the next')
            return
        if st.res == 'err' and st.act != 'restored':
            bad('reference lost', 'a reference to something unknown disappears')
            return
        if st.mode0 == 'Variable':
            if st.mode == 'Variable':
                if st.act:
                    bad('action', 'text is changed while a reference is read')
                self.flags |= {i for i, v in vals if v[0] == 'i' and E.F.bodies[self.own].locals[i][0] == ['prim', 'bool']}
            elif st.mode == 'Encoded':
                if st.ch != 58 or st.act:
                    bad('encoded', 'an encoded character begins without a colon')
            elif st.ch != 125 or not st.named:
                bad('closed', 'a reference is left out')
        else:
            if st.mode == 'None' and not (st.ch == 125 and st.dif):
                bad('encoded end', 'the text of an encoded character is lost')
            if isinstance(st.ch, int):
                if st.hex is not False and not st.dec and not self.prior_none():
                    bad('encoded lost', 'an encoded character is lost')
            elif p and p.hexes and st.mode == 'Encoded':
                if not any(dict(vals).get(i) and (self.is_pos(dict(vals)[i]) if st.hex is False else
                                                         self.local(dict(vals)[i]) is not None or self.was_pos(dict(vals)[i]))
                           for i in p.hexes):
                    bad('digit lost', 'a digit of an encoded character is lost')
            if st.dec and p and not p.hexes <= tops:
                bad('digits', 'digits of one encoded character are taken over to the next')

    def prior_none(self):
        return not self.prior

    def fetch(self, E, c, m, st, line):
        self.loops += 1
        self.held |= {i for i, v in self.user(E, c, m) if v}
        self.settle(E, c, m, st, line)
        hx = None
        if self.prior:
            vs = dict(self.user(E, c, m))
            vs = [vs.get(i) for i in self.prior.hexes]
            if all(v == ('i', TOPI) for v in vs):
                hx = False
            elif all(v and (self.is_pos(v) or self.was_pos(v)) for v in vs):
                hx = True
        return G0._replace(mode0=st.mode, mode=st.mode, flush=st.flush, hex=hx, uni=st.uni if st.mode == 'Encoded' else None)

    # ------------------------------------------------------------ hooks
    def on_branch(self, E, c, m, st, cond, val, line):
        if c.bid != self.own:
            return st
        if cond[0] == 'discr':
            x = cond[1]
            if x[0] == 'call' and name_of(x[1]) == 'next':
                return st._replace(end=True) if val == 0 else st
            if E.adt_of.get(x) == ST:
                names = {w: E.F.discr_of(ST, w) for w in E.F.variants(ST)}
                n = names[st.mode]
                return st if (n == val if isinstance(val, int) else n not in val[1]) else None
            if x[0] == 'call' and name_of(x[1]) in ('parse_variable', 'parse_match_variable') and st.act != 'restored':
                if isinstance(val, int):
                    return st._replace(res='ok' if E.F.variant_by_discr('Result', val) == 'Ok' else 'err')
            return st
        if cond[0] == 'call' and cond[2]:
            n = name_of(cond[1])
            if n == 'is_empty' and val == 1 and self.buf(cond[2][0]):
                return st._replace(flush='clear')
            if n == 'eq_ignore_ascii_case' and val == 1 and len(cond[2]) > 1:
                for w in ('hex', 'unicode'):
                    if w in str(cond[2][1]):
                        return st._replace(word=w)
            if cond[1].endswith('len') and self.items(cond[2][0]):
                return st._replace(n=val)
        if leaf(cond) == UNI and val in (0, 1):
            return st._replace(uni=val) if st.uni in (None, val) else None
        if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') and val in (0, 1):
            a, b = cond[2], cond[3]
            if a[0] == 'i':
                a, b = b, a
            same = (cond[1] == 'Eq') == (val == 1)
            if b[0] == 'i':
                if b[1] == TOPI and self.was_pos(a):
                    return None if same else st
                if b[1] == TOPI and self.local(a) is not None:
                    if not self.prior or self.local(a) in self.prior.hexes:
                        return st._replace(hex=not same) if st.hex in (None, not same) else None
                    return st
                return self.byte(st, a, b[1] if same else ('not', frozenset({b[1]})))
            if self.mark(a) or self.mark(b):
                return st._replace(trim=True) if same else st._replace(dif=True)
            return st
        if cond[0] == 'bin' and cond[1] in ('Lt', 'Le', 'Gt', 'Ge') and val in (0, 1):
            a, b = cond[2], cond[3]
            op = cond[1]
            if op in ('Gt', 'Ge'):
                a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
            if not val:
                a, b, op = b, a, {'Lt': 'Le', 'Le': 'Lt'}[op]
            # a is below b: the start of the name (strictly) below the position
            y = lin(b)
            t = [t for t in y if t != 1]
            if len(t) == 1 and self.is_pos(t[0]) and y[t[0]] == 1 and self.is_start(a, y.get(1, 0) - (op == 'Le')):
                return st._replace(full=True)
        return self.byte(st, cond, val) if isinstance(val, (int, tuple)) else st

    def mark(self, v):
        return leaf(v) == SIZE or v == SIZE0

    def byte(self, st, v, val):
        if self.is_ch(v):
            x = learn(st.ch, val)
            return None if x == 'no' else st._replace(ch=x)
        i = self.local(v)
        if self.was_ch(v) or i is not None and (not self.prior or i in (self.prior.lastl or ())):
            x = learn(st.last, val)
            return None if x == 'no' else st._replace(last=x)
        return st

    def buf(self, v):
        return v in self.bufs

    def items(self, v):
        return v in self.itemv

    bufs = frozenset()
    itemv = frozenset()

    def on_agg(self, E, c, m, st, v, line):
        if c.bid != self.own or v[1] != ST:
            return st
        if v[2] == 'Encoded':
            f = dict(v[3])
            x = f.get('initial_buf_size')
            if x != SIZE0:
                self.bad(E, c, line, 'size', 'the text before an encoded character is not measured')
            u = f.get('is_unicode')
            if st.word is None or u != ('i', int(st.word == 'unicode')):
                self.bad(E, c, line, 'keyword', 'an encoded character is not of the kind its keyword tells')
            st = st._replace(uni=int(st.word == 'unicode'))
        if st.mode0 == 'None' and v[2] == 'None':
            return st
        return st._replace(mode=v[2])

    def slice_of(self, v):
        """(start, end) of the range of the string v is."""
        for y in [v] if v[0] == 'call' else calls_in(v):
            if y[0] == 'call' and name_of(y[1]) in ('index', 'get', 'get_unchecked') and len(y[2]) > 1 and y[2][1][0] == 'v' and 'Range' in y[2][1][1]:
                f = dict(y[2][1][3])
                return f.get('start'), f.get('end')
            if y[0] == 'call' and name_of(y[1]) in ('index', 'get', 'get_unchecked') and len(y[2]) > 1 and y[2][1][0] == 'call' and \
                    'RangeInclusive' in y[2][1][1] and len(y[2][1][2]) == 2:
                return y[2][1][2][0], ('bin', 'Add', y[2][1][2][1], ('i', 1))
        return None

    def is_start(self, v, off):
        x = lin(v)
        ts = [t for t in x if t != 1]
        if len(ts) != 1 or x[ts[0]] != 1:
            return False
        if self.was_pos(ts[0]):
            return x.get(1, 0) == off + 1
        i = self.local(ts[0])
        return i is not None and (not self.prior or x.get(1, 0) == off + 1 - self.prior.start.get(i, 1 << 20))

    def on_call(self, E, c, m, st, name, k, args, line):
        if c.bid != self.own or not args:
            return None
        n = name_of(name)
        a = args[0]

        def bad(key, msg):
            self.bad(E, c, line, key, msg)
        if n in ('from_u32', 'encode_utf8'):
            return [(st, ('call', n, (), None))]
        if n == 'next' and 'Iterator' in name:
            return ('state', self.fetch(E, c, m, st, line))
        if n in ('parse_variable', 'parse_match_variable', 'from_str_radix'):
            r = next((self.slice_of(x) for x in args if self.slice_of(x)), None)
            if r is None:
                return None
            s, e = r
            if n == 'from_str_radix':
                if args[-1] != ('i', 16):
                    bad('radix', 'an encoded character is not read as hexadecimal')
                if not (s and (self.was_pos(s) or self.local(s) is not None and (not self.prior or self.local(s) in self.prior.hexes)) and
                        e and self.is_pos(e)):
                    bad('digits taken', 'an encoded character is not read from all of its digits')
                self.final.add('digits')
                return None
            self.final.add('name')
            if st.mode0 != 'Variable' or not (s and self.is_start(s, 0)) or not (e and self.is_pos(e)):
                bad('name', 'the name of a reference is not what is between its braces')
            if st.flush != 'clear' and st.flush != 'added':
                bad('order', 'a reference comes before the text in front of it')
            if not st.full:
                bad('empty', 'a reference without a name is not kept as text')
            return [(st._replace(named=True), ('call', 'parse_variable', (), None))]
        if not self.prior and n == 'push' and len(args) > 1 and st.mode0 == 'None' and self.is_ch(args[1]):
            self.bufs |= {a}
        if self.buf(a):
            if n == 'push':
                if self.is_ch(args[1]) and st.mode0 == 'None':
                    return ('state', st._replace(act='push' if st.act is None else 'twice', flush=None))
                if self.is_ch(args[1]):
                    bad('byte', 'a byte of a reference becomes text')
                if st.mode0 == 'None':
                    return ('state', st._replace(act='other', flush=None))
                return ('state', self.decoded(E, c, st, line, 0))
            if n == 'pop':
                if st.mode0 != 'None' or known(st.last, 36) is not True or st.ch != 123 or st.act:
                    bad('pop', 'a character of the text is taken back although no reference begins')
                return ('state', st._replace(act='popped', flush=None))
            if n in ('take', 'replace') and 'mem' in name:
                return [(st._replace(flush='taken'), ('call', 'text taken', (), None))]
            if n in ('extend_from_slice', 'extend', 'append'):
                r = self.slice_of(args[1])
                if r is None and any(name_of(y[1]) == 'encode_utf8' for y in calls_in(args[1])):
                    return ('state', self.decoded(E, c, st, line, 1))
                if r is None:
                    bad('appended', 'something else than the reference is kept as text')
                    return ('state', st._replace(act='restored', flush=None))
                s, e = r
                want = lin(e) if e else {}
                if st.end:
                    good = e is None or e[0] == 'call' and name_of(e[1]) == 'len' and e[2][0] == ('arg', self.own, 1)
                else:
                    good = want.get(1) == 1 and len(want) == 2 and all(t == 1 or self.is_pos(t) and f == 1 for t, f in want.items())
                if not (s and self.is_start(s, -2)) or not good:
                    bad('kept', 'a reference that is not recognised is not kept as it is')
                if st.mode0 == 'None' and not st.end or st.act == 'restored':
                    bad('kept twice', 'text is kept twice')
                if st.mode0 == 'Encoded' and not st.trim:
                    bad('trim', 'characters decoded before an error stay although the text is kept as it is')
                self.final.add('kept')
                return ('state', st._replace(act='restored', flush=None))
            if n == 'len':
                return [(st, SIZE0 if st.mode0 == 'Variable' and not st.end else ('p', ('arg', self.own, 0), 'size now'))]
            if n == 'truncate':
                if leaf(args[1]) != SIZE and args[1] != SIZE0:
                    bad('truncate', 'text is cut at another place than where the encoded character began')
                return ('state', st._replace(trim=True, flush=None))
            if n == 'clear':
                if st.flush not in ('added', 'clear', 'taken'):
                    bad('cleared', 'text is dropped')
                return ('state', st._replace(flush='clear'))
            if n in ('insert', 'remove', 'drain', 'retain', 'swap', 'reverse', 'dedup', 'swap_remove', 'split_off'):
                bad(n, 'the text is changed (%s)' % n)
        if n == 'add_value':
            self.itemv |= {args[1]}
            self.final.add('added')
            if any(y[1] == 'text taken' for y in calls_in(args[2])):
                if st.flush != 'taken':
                    bad('added', 'text is added to the items again')
                return [(st._replace(flush='clear'), ('call', 'add_value', (), None))]
            if args[2] not in self.bufs and not any(contains(args[2], x) for x in self.bufs):
                bad('added', 'something else than the text is added to the items')
            return [(st._replace(flush='added'), ('call', 'add_value', (), None))]
        if self.items(a) and n == 'push':
            if st.flush != 'clear':
                bad('order', 'a reference comes before the text in front of it, or that text stays for later')
            return None
        if self.items(a) and n in ('insert', 'remove', 'truncate', 'clear', 'retain', 'swap', 'reverse', 'swap_remove', 'drain'):
            bad('items ' + n, 'the items of a string are changed (%s)' % n)
        return None

    def decoded(self, E, c, st, line, uni):
        if st.mode0 != 'Encoded' or st.hex is False:
            self.bad(E, c, line, 'decoded', 'a character is made of nothing')
        if st.uni is not None and st.uni != uni:
            self.bad(E, c, line, 'decoded kind', 'an encoded character is taken for another kind')
        if st.dec:
            self.bad(E, c, line, 'decoded twice', 'an encoded character is added twice')
        return st._replace(dec=True, flush=None)

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own or not (v[0] == 'v' and v[2] == 'Ok'):
            return st
        if not st.end:
            self.bad(E, c, line, 'early', 'a string is accepted before its end')
            return st
        if st.mode0 != 'None' and st.act != 'restored':
            self.bad(E, c, line, 'unclosed', 'a reference that is not closed is not kept as text')
        if st.flush not in ('added', 'clear'):
            self.bad(E, c, line, 'last text', 'the text after the last reference is lost')
        x = dict(v[3])['0']
        if x[0] == 'v' and x[2] == 'Text' and st.n != 0:
            self.bad(E, c, line, 'items lost', 'a string is taken for empty')
        if x[0] != 'v' and st.n != 1 and x[0] != 'u':
            self.bad(E, c, line, 'items lost', 'only one item of a string is kept')
        return st


class SameRule(Rule):
    """a string becomes a number only where the number is written the same. state: was that found?"""

    def __init__(self, own):
        self.own = own
        self.met = 0

    def relevant(self, F):
        return {b.id for b in F.bodies.values() if b.id == self.own or b.kind == 'closure' and F.root_fn(b.id) == self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        x = cond[2:4] if cond[0] == 'bin' and cond[1] in ('Eq', 'Ne') else cond[2] if cond[0] == 'call' and name_of(cond[1]) in ('eq', 'ne') else ()
        if len(x) == 2 and val in (0, 1):
            # a number written out stands for the text it is written as
            ps = [any(name_of(y[1]) == 'parse' for y in calls_in(y)) for y in x]
            if ps[0] != ps[1]:
                return (name_of(cond[1]).lower() == 'eq') == (val == 1)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        if name_of(name) == 'parse':
            return ('state', False)
        return None

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Number' and v[2] in ('Integer', 'Float'):
            self.met += 1
            if st is not True:
                E.report('number %s' % v[2], c.bid, line, 'a string becomes a number that is written in another way')
        return st


class AddRule(Rule):
    """text is added to the items of a string once, as it is. state: (times added, decoded before?, is it a list?)"""

    def __init__(self, own, own2):
        self.own = own
        self.inner = own2
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def on_branch(self, E, c, m, st, cond, val, line):
        n, dec, lst = st
        if c.bid == self.own and cond == ('arg', self.own, 3):
            return (n, val == 1, lst)
        if c.bid == self.own and cond[0] == 'discr' and any(y[1] == 'tokenize_string' for y in calls_in(cond[1])) and E.adt_of.get(cond[1]) == 'Value':
            d = E.F.discr_of('Value', 'List')
            return (n, dec, d == val if isinstance(val, int) else (None if d not in val[1] else False))
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        n, dec, lst = st
        nm = name_of(name)
        if nm == 'tokenize_string':
            if args[1] != ('arg', self.own, 2) or args[2] != ('i', 0):
                E.report('again', c.bid, line, 'decoded text is not searched for references as it is, or decoded once more')
            self.seen.add('inner')
            return [(st, ('call', 'tokenize_string', (), (c.bid, 0)))]
        if args and args[0] == ('arg', self.own, 1):
            if nm == 'push':
                if dec:
                    if lst is not False:
                        E.report('push list', c.bid, line, 'a list is made an item of a string')
                elif not self.faithful(args[1]):
                    E.report('pushed', c.bid, line, 'an item of a string is not its text')
                self.seen.add('push')
                return ('state', (n + 1, dec, lst))
            if nm in ('extend', 'append', 'extend_from_slice'):
                if not dec or lst is False:
                    E.report('extended', c.bid, line, 'an item of a string is not its text')
                if any(y[1].rsplit('::', 1)[-1] in ('rev', 'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while') for y in calls_in(args[1])):
                    E.report('items', c.bid, line, 'items of a string are left out or change places')
                return ('state', (n + 1, dec, lst))
            if nm != 'len':
                E.report('items ' + nm, c.bid, line, 'the items of a string are changed (%s)' % nm)
        return None

    def faithful(self, v):
        if v[0] == 'ph' or v[0] == 'u':
            return True
        return v[0] == 'v' and v[1] == 'Value' and (v[2] == 'Number' or v[2] == 'Text' and (
            contains(v, ('arg', self.own, 2)) or 'arg' not in str(v)))

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and v[0] == 'v' and v[2] == 'Ok' and st[0] != 1:
            E.report('added %s' % st[0], c.bid, line, 'the text of a string is left out' if not st[0] else 'the text of a string is added twice')
        return st


class EvalRule(Rule):
    """every item of a string is part of its value. state: (kind of item, is it there?, loop begun, over)"""

    def __init__(self, own):
        self.own = own
        self.seen = set()

    def relevant(self, F):
        return {self.own}

    def settle(self, E, c, st, line):
        if st[0] in ('Text', 'Number') and st[1] != 1 or st[0] == 'Variable' and st[1] == 'due' or st[1] == 2:
            E.report('item %s' % st[0], c.bid, line, 'an item of a string is left out of its value, or is there twice (%s)' % st[0])

    def on_branch(self, E, c, m, st, cond, val, line):
        kind, got, on, over = st
        if c.bid != self.own or cond[0] != 'discr':
            return st
        x = cond[1]
        if x[0] == 'call' and name_of(x[1]) == 'next':
            return (kind, got, on, True) if val == 0 else st
        if on and E.adt_of.get(x) == 'Value' and contains(x, 'next') | any(name_of(y[1]) == 'next' for y in calls_in(x)):
            if isinstance(val, int):
                w = E.F.variant_by_discr('Value', val)
                self.seen.add(w)
                return (w, got, on, over)
            left = [w for w in E.F.variants('Value') if E.F.discr_of('Value', w) not in val[1]]
            return (left[0] if len(left) == 1 else kind, got, on, over)
        if x[0] == 'call' and name_of(x[1]) == 'variable' and on and kind == 'Variable':
            return (kind, 'due' if val == 1 else got, on, over)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        kind, got, on, over = st
        if c.bid != self.own or not args:
            return None
        n = name_of(name)
        if n == 'next' and 'Iterator' in name:
            self.settle(E, c, st, line)
            return ('state', (None, 0, True, False))
        if n in ('rev', 'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while', 'dedup', 'filter_map', 'take_last'):
            E.report('list ' + n, c.bid, line, 'items of a string are left out of its value or change places (%s)' % n)
        if n in ('push_str', 'extend', 'write_str', 'write_fmt', 'push', 'add_assign'):
            v = args[1] if len(args) > 1 else args[0]
            if on and n != 'push' and kind and root(v)[0] != 'i':
                return ('state', (kind, 1 if got in (0, 'due') else 2, on, over))
            E.report('pushed', c.bid, line, 'something else than its items is part of the value of a string')
        if n in ('insert_str', 'clear', 'truncate', 'pop', 'insert', 'remove', 'trim', 'retain'):
            E.report('value ' + n, c.bid, line, 'the value of a string is changed (%s)' % n)
        return None

    def on_return(self, E, c, m, st, v, line):
        if c.bid == self.own and st[2] and not st[3]:
            E.report('left early', c.bid, line, 'the last items of a string are left out of its value')
        return st


class C14(FlowCheck):
    explanation = (
        'The function that takes strings apart is simulated byte by byte: per byte, the state it was read in, what its branches '
        'tell of it and the byte before, and what became of it. A byte of the text must be appended to the text; a reference begins '
        'only with a brace after a dollar sign, which is then taken back, and its start noted; when it ends, its name must be the '
        'bytes from that start to the brace, with the text before it already among the items; a reference that is not recognised '
        'must be appended from its dollar sign up to the byte read last, with what was decoded cut off. Digits of encoded characters '
        'must be taken from their first to the last, read as hexadecimal and forgotten. The function that adds text must add it '
        'once; numbers are made of text only behind a comparison of the text with the number written out. The function that '
        'evaluates strings must append each item once and in order. Roles of local variables (start, digits, byte before) are found '
        'by a first pass from what they hold.')

    def check(self, F):
        res = self.result()
        P = 'src/compiler/lexer/string.rs'
        own = F.fn('CompilerState::tokenize_string').id
        a = TextRule(own)
        self.simulate(F, a, [own], G0)
        if a.loops:
            self.loop(F, own, a, res)
        else:
            # another kind of loop: its bytes cannot be told apart, nothing is decided about them
            res.ob(1, False)
            res.samples.append('not decided: the bytes of a string are not gone through with an iterator')
        add = F.fn('CompilerState::add_value').id
        d = AddRule(add, own)
        self.simulate(F, d, [add], (0, False, None), res)
        if not {'push', 'inner'} <= d.seen:
            res.bad('unseen add', P, 0, 'where text becomes an item of a string was not found')
        res.ob(2, not res.violations)
        met = 0
        for x in (add, F.fn('tokenizer::Tokenizer::get_string').id):
            e = SameRule(x)
            self.simulate(F, e, [x], '-', res)
            met += e.met
        if not met:
            res.bad('unseen numbers', P, 0, 'where strings become numbers was not found')
        res.ob(met, not res.violations)
        ev = F.fn('Context::eval_value').id
        f = EvalRule(ev)
        self.simulate(F, f, [ev], (None, 0, False, False), res)
        if not {'Text', 'Variable', 'Number'} <= f.seen:
            res.bad('unseen value', 'src/runtime/eval.rs', 0, 'where the value of a string is made was not found')
        res.ob(3, not res.violations)
        return res

    def loop(self, F, own, a, res):
        P = 'src/compiler/lexer/string.rs'
        b = TextRule(own)
        b.bufs, b.itemv = a.bufs, a.itemv
        self.simulate(F, b, [own], G0)
        b.hexes = b.digit & (b.cleared or set())
        for i in b.hexes & set(b.start):
            del b.start[i]
        c = TextRule(own, b)
        c.bufs, c.itemv = a.bufs, a.itemv
        self.simulate(F, c, [own], G0, res)
        if not b.start or not {'name', 'kept', 'added'} <= c.final:
            res.bad('unseen loop', P, 0, 'where strings are taken apart was not found')
        res.ob(len(c.met) + len(c.final), not res.violations)
        res.analysed['ways of a byte'] = len(c.met)
        res.samples += sorted('byte read in %s, now %s: %s' % x for x in c.met)
