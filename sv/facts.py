"""Loads the facts written by the rustc driver and gives the rules a resolved
view of the program: bodies, ADTs, call graph, short canonical names."""
import json, re
from collections import defaultdict


def strip_generics(s):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`."""
    out = []
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            # keep `<impl X>` / `<X as Y>` heads, drop `::<..>` and `Type<..>`
            if depth == 0 and (s.startswith('<impl ', i) or (i == 0) or s[i - 1] == ' '):
                if s.startswith('<impl ', i) or i == 0:
                    # find the matching bracket, keep its inside stripped
                    d = 0
                    j = i
                    while j < n:
                        if s[j] == '<':
                            d += 1
                        elif s[j] == '>' and s[j - 1] != '-':
                            d -= 1
                            if d == 0:
                                break
                        j += 1
                    inner = s[i + 1:j]
                    out.append('<' + strip_generics_inner(inner) + '>')
                    i = j + 1
                    continue
            depth += 1
        elif c == '>' and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    while '::::' in r:
        r = r.replace('::::', '::')
    if r.endswith('::'):
        r = r[:-2]
    return r


def strip_generics_inner(s):
    out = []
    depth = 0
    for i, c in enumerate(s):
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
    return ''.join(out).replace('::::', '::')


class Body:
    __slots__ = ('id', 'kind', 'file', 'line', 'argc', 'locals', 'blocks', 'raw', 'name',
                 'self_ty', 'trait', 'derived', 'exported', 'parent', 'succs', 'memlocals',
                 'live', 'canon', 'preds', 'rpo', 'loopblocks', 'nblocks')

    def __init__(self, raw):
        self.raw = raw
        self.id = raw['id']
        self.kind = raw['kind']
        self.file = raw['file']
        self.line = raw['line']
        self.argc = raw['argc']
        self.locals = raw['locals']
        self.blocks = raw['blocks']
        self.name = raw.get('name')
        self.self_ty = raw.get('self')
        self.trait = raw.get('trait')
        self.derived = raw.get('derived', 0)
        self.exported = raw.get('exported', False)
        self.parent = raw.get('parent')
        self.succs = [term_succs(b['t']) for b in self.blocks]
        self.memlocals = None
        self.live = None
        self.nblocks = sum(1 for b in self.blocks if not b['x'])

    def preds_(self):
        p = defaultdict(list)
        for i, ss in enumerate(self.succs):
            for s in ss:
                p[s].append(i)
        return p


def term_succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        out = []
        for _, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] not in out:
            out.append(t[3])
        return out
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    return []


def operand_places(op):
    if op[0] in ('c', 'm'):
        return [op[1]]
    return []


def rvalue_operands(rv):
    k = rv[0]
    if k in ('use', 'repeat'):
        return [rv[1]]
    if k == 'cast':
        return [rv[2]]
    if k == 'bin':
        return [rv[2], rv[3]]
    if k == 'un':
        return [rv[2]]
    if k == 'agg':
        return rv[5]
    return []


def rvalue_places(rv):
    """(place, how) for every place the rvalue touches."""
    out = []
    for o in rvalue_operands(rv):
        for p in operand_places(o):
            out.append((p, 'read'))
    k = rv[0]
    if k == 'ref':
        out.append((rv[2], 'mut' if rv[1] else 'shared'))
    elif k == 'raw':
        out.append((rv[1], 'mut'))
    elif k == 'discr':
        out.append((rv[1], 'discr'))
    return out


class Facts:
    def __init__(self, path):
        raw = json.load(open(path))
        self.raw = raw
        self.bodies = {}
        for b in raw['bodies']:
            self.bodies[b['id']] = Body(b)
        self.adts = {a['path']: a for a in raw['adts']}
        self.impls = raw['impls']
        self._shorts()
        for a in raw['adts']:
            a['short'] = self.short(a['path'])
        self.adt_by_short = {a['short']: a for a in raw['adts']}
        for b in self.bodies.values():
            b.canon = self.canon_name(b)
        self.by_canon = defaultdict(list)
        for b in self.bodies.values():
            self.by_canon[b.canon].append(b)
        self.trait_impls = defaultdict(list)  # (trait path, method) -> [body id]
        for b in self.bodies.values():
            if b.trait and b.name:
                self.trait_impls[(b.trait, b.name)].append(b.id)
        self._callgraph()
        self._wsets = {}

    # ---- names
    def _shorts(self):
        seen = defaultdict(list)
        for p, a in self.adts.items():
            if a['local']:
                seen[p.split('::')[-1]].append(p)
        self._short = {}
        for last, ps in seen.items():
            if len(ps) == 1:
                self._short[ps[0]] = last
            else:
                for p in ps:
                    self._short[p] = '::'.join(p.split('::')[-2:]) if '::' in p else p
        for p, a in self.adts.items():
            if not a['local']:
                last = p.split('::')[-1]
                root = p.split('::')[0]
                if root in ('std', 'core', 'alloc') and last not in seen:
                    self._short[p] = last
                else:
                    self._short[p] = p

    def short(self, p):
        return self._short.get(p, p)

    def owner(self, o):
        """field owner: `path` or `path::Variant`."""
        if o in self._short:
            return self._short[o]
        if '::' in o:
            a, v = o.rsplit('::', 1)
            if a in self._short:
                return self._short[a] + '::' + v
        return o

    def canon_name(self, b):
        if b.kind == 'closure':
            return strip_generics(b.id)
        if b.kind != 'fn':
            return strip_generics(b.id)
        if b.self_ty:
            t = self.ty_short(b.self_ty)
            if b.trait:
                return '%s as %s::%s' % (t, strip_generics(b.trait).split('::')[-1], b.name)
            return '%s::%s' % (t, b.name)
        return b.name

    def ty_short(self, t):
        k = t[0]
        if k == 'adt':
            return self.short(t[1])
        if k in ('ref', 'ptr'):
            return '&' + self.ty_short(t[2])
        if k in ('prim', 'param', 'dyn', 'closure', 'fndef'):
            return t[1]
        if k in ('slice', 'array'):
            return '[' + self.ty_short(t[1]) + ']'
        if k == 'tuple':
            return '(' + ','.join(self.ty_short(x) for x in t[1]) + ')'
        return k

    def fn(self, canon):
        """the unique non-derived function with this canonical name."""
        c = [b for b in self.by_canon.get(canon, []) if not b.derived]
        if len(c) != 1:
            raise Missing('function %s: %d definitions' % (canon, len(c)))
        return c[0]

    def opt_fn(self, canon):
        c = [b for b in self.by_canon.get(canon, []) if not b.derived]
        return c[0] if len(c) == 1 else None

    def adt(self, short):
        a = self.adt_by_short.get(short)
        if not a:
            raise Missing('type %s' % short)
        return a

    def variants(self, short):
        return [v['name'] for v in self.adt(short)['variants']]

    def fields(self, short, variant=None):
        a = self.adt(short)
        for v in a['variants']:
            if variant is None or v['name'] == variant:
                return [f[0] for f in v['fields']]
        raise Missing('%s::%s' % (short, variant))

    def discr_of(self, short, variant):
        for v in self.adt(short)['variants']:
            if v['name'] == variant:
                return int(v['discr'])
        raise Missing('%s::%s' % (short, variant))

    def variant_by_discr(self, short, n):
        a = self.adt_by_short.get(short)
        if not a:
            return None
        for v in a['variants']:
            if int(v['discr']) == n:
                return v['name']
        return None

    # ---- call graph
    def callee(self, k):
        """const operand dict -> (local body id or None, external name)."""
        res = k.get('res') or k['fn']
        if res in self.bodies:
            return res, None
        return None, strip_generics(k['fn'])

    def _callgraph(self):
        self.calls = {}       # id -> set(local ids), includes closures created
        self.extcalls = {}    # id -> list of (name, line, term)
        for b in self.bodies.values():
            loc = set()
            ext = []
            for blk in b.blocks:
                if blk['x']:
                    continue
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    rv = s[2]
                    if rv[0] == 'agg' and rv[1] == 'closure' and rv[2] in self.bodies:
                        loc.add(rv[2])
                    for o in rvalue_operands(rv):
                        self._fnop(o, loc)
                t = blk['t']
                if t[0] == 'call':
                    f = t[1]
                    if f[0] == 'k' and 'fn' in f[1]:
                        lid, name = self.callee(f[1])
                        if lid:
                            loc.add(lid)
                        elif f[1].get('local') and f[1].get('trait'):
                            m = f[1]['fn'].split('::')[-1]
                            for i in self.trait_impls.get((f[1]['trait'], m), []):
                                loc.add(i)
                            ext.append((name, blk['l'], t))
                        else:
                            ext.append((name, blk['l'], t))
                            res = f[1].get('res')
                            # external generic calling back into a local trait impl
                            for i in self._callback_impls(f[1]):
                                loc.add(i)
                    else:
                        ext.append(('<indirect>', blk['l'], t))
                    for a in t[2]:
                        self._fnop(a, loc)
            self.calls[b.id] = loc
            self.extcalls[b.id] = ext
        self.callers = defaultdict(set)
        for f, cs in self.calls.items():
            for c in cs:
                self.callers[c].add(f)

    def _callback_impls(self, k):
        """`str::parse::<T>`, `Into::into`, `to_string`, `format` ... may run a
        local impl of a std trait for a local type; link From/TryFrom/FromStr/
        Display/PartialEq/PartialOrd/Hash/Clone/Default of the local type args."""
        out = []
        name = k['fn']
        m = name.split('::')[-1]
        link = {'into': ('std::convert::From', 'from'),
                'try_into': ('std::convert::TryFrom', 'try_from'),
                'parse': ('std::str::FromStr', 'from_str'),
                'to_string': ('std::fmt::Display', 'fmt')}.get(m)
        if link:
            types = []
            for t in k.get('targs', []):
                collect_adts(t, types)
            st = k.get('self')
            if st:
                collect_adts(st, types)
            for i in self.trait_impls.get(link, []):
                b = self.bodies[i]
                s = b.self_ty
                if s and s[0] == 'adt' and s[1] in types:
                    out.append(i)
        return out

    def _fnop(self, o, loc):
        if o[0] == 'k' and 'fn' in o[1]:
            lid, _ = self.callee(o[1])
            if lid:
                loc.add(lid)
        if o[0] == 'k' and 'item' in o[1] and o[1]['item'] in self.bodies:
            loc.add(o[1]['item'])
        if o[0] == 'k' and 'promoted' in o[1] and o[1]['promoted'] in self.bodies:
            loc.add(o[1]['promoted'])

    def reach(self, roots):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.calls.get(x, ()))
        return seen

    def reach_back(self, roots):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.callers.get(x, ()))
        return seen

    # ---- write sets
    def direct_writes(self, bid):
        """`ADT.field` names assigned or mutably borrowed in this body."""
        w = set()
        b = self.bodies[bid]
        for blk in b.blocks:
            if blk['x']:
                continue
            for s in blk['s']:
                if s[0] == '=':
                    f = self.last_field(s[1])
                    if f:
                        w.add(f)
                    rv = s[2]
                    if rv[0] == 'ref' and rv[1]:
                        f = self.last_field(rv[2])
                        if f:
                            w.add(f)
                elif s[0] == 'sd':
                    f = self.last_field(s[1])
                    if f:
                        w.add(f)
            t = blk['t']
            if t[0] == 'call':
                f = self.last_field(t[3])
                if f:
                    w.add(f)
        return w

    def writes(self, bid):
        if bid in self._wsets:
            return self._wsets[bid]
        w = set()
        for x in self.reach([bid]):
            if ('d', x) not in self._wsets:
                self._wsets[('d', x)] = self.direct_writes(x)
            w |= self._wsets[('d', x)]
        self._wsets[bid] = w
        return w

    def last_field(self, place):
        for e in reversed(place[1]):
            if e[0] == 'f' and e[3]:
                return self.owner(e[3]) + '.' + e[2]
            if e[0] == 'f':
                return None
            if e[0] in ('i', 'ci', 'sub'):
                continue
            if e[0] == '*' or e[0] == 'd':
                continue
        return None

    def place_fields(self, place):
        return [self.owner(e[3]) + '.' + e[2] for e in place[1] if e[0] == 'f' and e[3]]

    def all_fns(self):
        return [b for b in self.bodies.values() if b.kind in ('fn', 'closure') and not b.derived]

    def root_fn(self, bid):
        """enclosing named function of a closure."""
        b = self.bodies[bid]
        while b.kind == 'closure' and b.parent in self.bodies:
            b = self.bodies[b.parent]
        return b


def collect_adts(t, out):
    if t[0] == 'adt':
        out.append(t[1])
        for x in t[2]:
            collect_adts(x, out)
    elif t[0] in ('ref', 'ptr'):
        collect_adts(t[2], out)
    elif t[0] == 'tuple':
        for x in t[1]:
            collect_adts(x, out)
    elif t[0] in ('slice', 'array'):
        collect_adts(t[1], out)


class Missing(Exception):
    """an anchor the rule needs is not in the program."""
