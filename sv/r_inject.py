"""R06: text from a message or a script cannot add header fields."""
import re
from collections import defaultdict
from base import FlowCheck, Rule, bodies_touching
from engine import leaf
from facts import operand_places
from taint import Taint, BOTH

TRUSTED = {'Context.user_address', 'Context.user_full_name', 'Context.runtime', 'Runtime'}
INPUTS = {'Context', 'mail_parser::Message', 'mail_parser::MessagePart', 'mail_parser::Header'}
RAW = 'mail_parser::Message.raw_message'
HEADER = 'mail_parser::Header'
MADE = 'Event::CreatedMessage'
WRITES = {'extend_from_slice', 'push', 'push_str', 'extend', 'write_all', 'write_fmt', 'write_str', 'write', 'insert', 'insert_str', 'append',
          'write_char', 'extend_from_within', 'splice', 'write_to', 'put', 'put_slice', 'put_u8'}
FIELD = re.compile(rb'^[A-Za-z][A-Za-z0-9-]*: ?')
MIME = 'Vacation.mime'
REASON = 'Vacation.reason'


SAME = {'as_bytes', 'as_str', 'as_ref', 'deref', 'into', 'to_vec', 'borrow', 'index', 'as_slice', 'format', 'must_use', 'to_string', 'into_bytes',
        'to_owned', 'from', 'as_mut_slice', 'into_owned', 'clone'}


def pieces(v):
    """what is written: constant bytes, or None for the rest."""
    if v[0] == 's' and isinstance(v[1], str):
        return [v[1].encode('utf-8', 'replace')]
    if v[0] == 'b':
        x = v[1]
        return [x.encode('latin-1', 'replace') if isinstance(x, str) else bytes(x)]
    if v[0] == 'i' and 0 <= v[1] < 256:
        return [bytes([v[1]])]
    if v[0] == 'arr' and v[1] and all(x[0] == 'i' for x in v[1]):
        return [bytes(x[1] & 255 for x in v[1])]
    if v[0] == 'call' and v[2]:
        n = v[1].rsplit('::', 1)[-1]
        if 'Arguments' in v[1]:
            return template(v)
        if n in SAME:
            return pieces(v[2][0])
    return [None]


def template(v):
    """the literal parts of a format string, as the compiler encodes it."""
    x = pieces(v[2][0])[0] if v[2][0][0] in ('b', 's') else None
    if x is None:
        return [None]
    if v[1].endswith('from_str') or len(v[2]) == 1:
        return [x]
    out, i = [], 0
    while i < len(x) and x[i] != 0:
        n = x[i]
        if n < 0x80:
            out.append(x[i + 1:i + 1 + n])
            i += 1 + n
        elif n == 0x80:
            n = x[i + 1] | x[i + 2] << 8
            out.append(x[i + 3:i + 3 + n])
            i += 3 + n
        else:
            out.append(None)
            i += 1 + (4 if n & 1 else 0) + (2 if n & 2 else 0) + (2 if n & 4 else 0) + (2 if n & 8 else 0)
    return out


class Build(Rule):
    """state: ('head', is a line begun, last bytes, mime reason) or ('body',)."""
    opaque = ()

    def __init__(self, T, roots):
        self.T = T
        self.roots = roots
        self.seen = set()
        self.dyn = {}
        self.done = set()

    def relevant(self, F):
        out = set(self.roots) | {x[0] for x in self.T.buffers if len(x) == 3}
        for b in F.bodies.values():
            if b.id in self.T.inset and any(t[0] == 'ref' and t[1] and t[2][0] == 'adt' and t[2][1] in ('std::vec::Vec', 'std::string::String') and self.buf(b.id, i + 1)
                                            for i, (t, *_) in enumerate(b.locals[1:b.argc + 1])):
                out.add(b.id)
        return out

    def buf(self, bid, l):
        return (bid, self.T.alias[bid](l)) in self.T.buffers

    def target(self, E, c):
        """does the call in progress write to a message that is being made?"""
        b = E.F.bodies[c.bid]
        t = b.blocks[E.cur]['t']
        hits = []
        for i, a in enumerate(t[2]):
            for p in operand_places(a):
                ty = b.locals[p[0]][0]
                if ty[0] == 'ref' and ty[1] and self.T.isbuf(b, p):
                    hits.append(i)
        return t, hits

    def on_branch(self, E, c, m, st, cond, val, line):
        if leaf(cond) == MIME and val == 1 and st[0] == 'head':
            return st[:3] + (True,)
        return st

    def on_call(self, E, c, m, st, name, k, args, line):
        lid, _ = E.F.callee(k) if 'fn' in k else (None, '')
        if lid and lid in self.T.inset and E.analyse(lid):
            return None
        t, hits = self.target(E, c)
        if not hits or 'fn' not in k:
            return None
        meth = k['fn'].rsplit('::', 1)[-1]
        if meth in ('deref_mut', 'as_mut', 'borrow_mut', 'by_ref', 'reserve', 'clear', 'truncate'):
            return None
        self.seen.add((c.bid, E.cur))
        for i in range(len(args)):
            if i in hits:
                continue
            for x in pieces(args[i]):
                if x is not None:
                    st = self.text(E, c, st, x, line)
                elif st[0] == 'head':
                    self.dyn.setdefault((c.bid, E.cur, i, st[3]), []).append((c, line, meth))
                    st = ('head', True, b'', st[3])
        if len(args) == 1 and st[0] == 'head':
            st = ('head', True, b'', st[3])
        return ('state', st)

    def text(self, E, c, st, x, line):
        if st[0] == 'body':
            return st
        if FIELD.match(x) and st[1]:
            E.report('glued %s' % self.fn(E, c), c.bid, line, 'the field "%s" of a generated message may be written into the line of another' % x.decode('latin-1').strip())
        tail = (b'\r\n' if not st[1] else st[2]) + x
        if b'\r\n\r\n' in tail:
            return ('body',)
        return ('head', not tail.endswith(b'\r\n'), tail[-3:], st[3])

    @staticmethod
    def fn(E, c):
        return E.F.bodies[c.bid].canon.split('::{')[0]

    def on_agg(self, E, c, m, st, v, line):
        if v[1] == 'Event' and v[2] == 'CreatedMessage':
            self.done.add((c.bid, line))
            if st[0] == 'head' and not st[3]:
                E.report('no blank line %s' % self.fn(E, c), c.bid, line, 'the message may be made without a line that ends its header')
        return st


class R06(FlowCheck):
    explanation = (
        'Qualifier inference over the MIR of all functions reached from Context::run: for every local, whether CR and LF from a script, '
        'a message or the envelope may be in it (functions summarised by parameter; what filters, replacements and guarded loops keep '
        'out is decided by simulating them for each character). Name and value of every header that is made, and all text written into '
        'a message that is made before its blank line, must hold neither; slices of the received header are kept as they are. '
        'Property simulation of the line structure: each field begins on a line of its own, and the header is ended.')

    def check(self, F):
        res = self.result()
        run = F.fn('Context::run')
        live = sorted(x for x in F.reach([run.id]) if F.bodies[x].kind in ('fn', 'closure'))
        T = Taint(F, live, TRUSTED, INPUTS)
        res.functions = len(live)
        self.T, self.F, self.res = T, F, res
        self.headers()
        self.messages(live)
        return res

    # ---------------------------------------------------------------- headers
    def blame(self, toks, key, bid, line, msg, depth=0, via=()):
        """report origins; ask the callers about parameters."""
        T, F = self.T, self.F
        bad = sorted({t[0] for t in toks if not isinstance(t[0], tuple)})
        b = F.bodies[bid]
        if bad:
            self.res.bad('%s %s' % (key, F.root_fn(bid).canon), b.file, line, '%s: %s (from %s)' % (b.canon, msg, ', '.join(bad[:3])))
            return
        for org in sorted({t[0] for t in toks if isinstance(t[0], tuple)}, key=repr):
            ch = {t[1] for t in toks if t[0] == org}
            sites = T.sites.get(org[1], [])
            sites = [s for s in sites if s[0] in T.inset]
            if not sites or depth > 6 or org in via:
                self.res.bad('%s %s' % (key, F.root_fn(bid).canon), b.file, line, '%s: %s (from %s)' % (b.canon, msg, org[3] or 'a parameter'))
                continue
            for sb, blk, t in sites:
                up = set()
                if org[2] - 1 < len(t[2]):
                    for x in ch:
                        up |= T.through(F.bodies[sb], t[2][org[2] - 1], org[3], x)
                if up:
                    self.blame(up, key, sb, blk['l'], msg, depth + 1, via + (org,))

    def headers(self):
        F, T, res = self.F, self.T, self.res
        n = 0
        for bid in T.bodies:
            b = F.bodies[bid]
            for blk in b.blocks:
                if blk['x']:
                    continue
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    rv = s[2]
                    if rv[0] == 'agg' and rv[1] == 'adt' and F.short(rv[2]) == HEADER:
                        for f, o in zip(rv[4], rv[5]):
                            if f in ('name', 'value'):
                                n += 1
                                self.blame(T.operand(b, o), 'header ' + f, bid, s[3], 'the %s of a header that is made may hold line breaks' % f)
                    f = F.last_field(s[1])
                    if f in (HEADER + '.name', HEADER + '.value'):
                        n += 1
                        toks = set()
                        for o in ([rv[1]] if rv[0] == 'use' else rv[5] if rv[0] == 'agg' else []):
                            toks |= T.operand(b, o)
                        self.blame(toks, 'header ' + f.rsplit('.', 1)[-1], bid, s[3], 'the %s given to a header may hold line breaks' % f.rsplit('.', 1)[-1])
                t = blk['t']
                if t[0] == 'call':
                    f = F.last_field(t[3])
                    if f in (HEADER + '.name', HEADER + '.value'):
                        n += 1
                        toks = set()
                        for o in t[2]:
                            toks |= T.operand(b, o)
                        self.blame(toks, 'header ' + f.rsplit('.', 1)[-1], bid, blk['l'], 'the %s given to a header may hold line breaks' % f.rsplit('.', 1)[-1])
        res.ob(n, not res.violations)
        res.analysed['names and values of headers made'] = n
        if n < 2:
            res.bad('unseen headers', 'src/runtime/actions', 0, 'where headers are made was not found')

    # ---------------------------------------------------------------- messages
    def messages(self, live):
        F, T, res = self.F, self.T, self.res
        made = []
        for bid in live:
            b = F.bodies[bid]
            for blk in b.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and F.short(s[2][2]) + '::' + s[2][3] == MADE and not blk['x']:
                        o = dict(zip(s[2][4], s[2][5]))['message']
                        made.append((bid, o, s[3]))
        T.buffers = set()
        roots = []
        for bid, o, line in made:
            todo = [(bid, p[0]) for p in operand_places(o)]
            mine = set()
            while todo:
                x, l = todo.pop()
                l = T.alias[x](l)
                if (x, l) in mine:
                    continue
                mine.add((x, l))
                b = F.bodies[x]
                for blk in b.blocks:
                    if blk['x']:
                        continue
                    for s in blk['s']:
                        if s[0] == '=' and s[2][0] == 'use' and T.alias[x](s[1][0]) == l and not s[1][1]:
                            todo += [(x, p[0]) for p in operand_places(s[2][1]) if not p[1]]
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                            for i, o2 in enumerate(s[2][5]):
                                for p in operand_places(o2):
                                    if T.alias[x](p[0]) == l and s[2][2] in T.inset:
                                        mine.add((s[2][2], 'up', i))
                                        todo += self.captured(s[2][2], i)
                    t = blk['t']
                    if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                        lid, _ = F.callee(t[1][1])
                        if T.alias[x](t[3][0]) == l and not t[3][1] and lid in T.inset:
                            todo.append((lid, 0))
                        meth = t[1][1]['fn'].rsplit('::', 1)[-1]
                        if T.alias[x](t[3][0]) == l and not t[3][1] and meth in ('into_bytes', 'into', 'from', 'unwrap', 'take', 'into_boxed_slice', 'into_vec', 'into_inner'):
                            todo += [(x, p[0]) for a in t[2] for p in operand_places(a) if not p[1]]
                        for i, a in enumerate(t[2]):
                            for p in operand_places(a):
                                if T.alias[x](p[0]) == l and lid in T.inset and i < F.bodies[lid].argc and F.bodies[lid].locals[i + 1][0][0] == 'ref':
                                    todo.append((lid, i + 1))
            rebuilt = any(f == 'mail_parser::MessagePart.body' for x in {y[0] for y in mine if y[0] != bid or True} for f in self.fields(x))
            if not rebuilt:
                roots.append(bid)
                T.buffers |= mine
        upv = {}

        def isbuf(b, p):
            if T.isenv(b, p[0]):
                k = next((e for e in p[1] if e[0] == 'f'), None)
                return k is not None and (b.id, 'up', k[1]) in T.buffers
            if (b.id, T.alias[b.id](p[0])) in T.buffers:
                return True
            return False
        T.isbuf = isbuf
        n = 0
        for bid in sorted(set(roots)):
            r = Build(T, [bid])
            e = self.simulate(F, r, [bid], ('head', False, b'', False), res)
            n += len(r.seen)
            if not r.seen or not r.done:
                res.bad('unseen message', F.bodies[bid].file, F.bodies[bid].line, 'how %s writes its message was not found' % F.bodies[bid].canon)
            for (b2, blk, i, mime), uses in sorted(r.dyn.items()):
                t = F.bodies[b2].blocks[blk]['t']
                toks = T.operand(F.bodies[b2], t[2][i])
                meth = uses[0][2]
                ty = self.argtype(b2, t[2][i])
                if meth in ('push', 'insert', 'push_str', 'write_char') and ty and ty[0] == 'prim':
                    ok = T.passes(b2, blk)
                    toks = {x for x in toks if x[1] in ok}
                for c, line, _ in uses:
                    self.resolve(e, c, toks, mime, line)
        res.ob(n, not res.violations)
        res.analysed['writes into generated messages'] = n
        res.analysed['generated messages'] = len(set(roots))
        if len(set(roots)) < 2:
            res.bad('unseen messages', 'src/runtime/actions', 0, 'where vacation and notify make their messages was not found')

    def captured(self, cid, i):
        """locals of a closure that are what it captured."""
        cb = self.F.bodies[cid]
        out = []
        for blk in cb.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] in ('ref', 'use') and not s[1][1]:
                    q = s[2][2] if s[2][0] == 'ref' else (operand_places(s[2][1]) or [None])[0]
                    if q and q[0] == 1 and next((e[1] for e in q[1] if e[0] == 'f'), None) == i:
                        out.append((cid, s[1][0]))
        return out

    def fields(self, bid):
        out = set()
        b = self.F.bodies[bid]
        from facts import rvalue_places
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=':
                    for p, _ in rvalue_places(s[2]):
                        out |= set(self.F.place_fields(p))
        return out

    def argtype(self, bid, a):
        ps = operand_places(a)
        return self.F.bodies[bid].locals[ps[0][0]][0] if ps else None

    def resolve(self, e, c, toks, mime, line, depth=0, at=None):
        """text written in context c: parameters are what its callers gave."""
        F, T = self.F, self.T
        at = at or (c.bid, line)
        bad = {t[0] for t in toks if not isinstance(t[0], tuple)} - {RAW}
        params = {t for t in toks if isinstance(t[0], tuple)}
        if not c.deps or depth > 8:
            bad |= {t[0][3] or 'a parameter' for t in params}
            params = set()
        if mime and REASON in bad | {t[0][3] for t in params}:
            return
        if bad:
            b = F.bodies[at[0]]
            self.res.bad('text %s' % F.root_fn(at[0]).canon, b.file, at[1], '%s writes text that may hold line breaks into the header of a message it makes (from %s)' % (
                b.canon, ', '.join(sorted(bad)[:3])))
        if not params:
            return
        for cc, key in c.deps:
            t = F.bodies[cc.bid].blocks[key[0]]['t']
            up = set()
            for org, ch in params:
                if org[1] != c.bid:
                    up.add((org, ch))
                elif org[2] - 1 < len(t[2]):
                    up |= T.through(F.bodies[cc.bid], t[2][org[2] - 1], org[3], ch)
            if up:
                ln = F.bodies[cc.bid].blocks[key[0]]['l']
                self.resolve(e, cc, up, mime, ln, depth + 1, (cc.bid, ln))
