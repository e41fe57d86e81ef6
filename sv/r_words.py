"""The words of the language: what a text is looked up as (part of C01 and C13)."""
from base import Rule, bodies_touching

PREFIXES = {'Comparator': ('i;',), 'Capability': ('comparator-', 'vnd.stalwart.')}


def plain(x):
    return ''.join(ch for ch in x.lower() if ch.isalnum())


def stem(enum, text):
    for p in PREFIXES.get(enum, ()):
        if text.startswith(p):
            text = text[len(p):]
    return plain(text[2:] if text.startswith('i;') else text)


def strs(t):
    return t == ('prim', 'str') or isinstance(t, (tuple, list)) and len(t) == 2 and t[0] == 'prim' and t[1] == 'str' or (
        isinstance(t, (tuple, list)) and len(t) == 3 and t[0] in ('ref', 'ptr') and strs(t[2]))


class WordRule(Rule):
    """state: the text that the word is known to be."""

    def __init__(self, own, enum, bodies):
        self.own, self.enum, self.bodies = own, enum, bodies
        self.seen = {}

    def relevant(self, F):
        return self.bodies

    def on_branch(self, E, c, m, st, cond, val, line):
        from r_refs import literal                          # r_refs needs r_caps, which needs this
        t = literal(cond)
        if t and isinstance(val, int) and bool(val) == t[1]:
            return str(t[0].decode() if isinstance(t[0], bytes) else t[0])
        return st

    def on_return(self, E, c, m, st, v, line):
        if c.bid != self.own:
            return st
        while v[0] == 'v' and v[2] in ('Some', 'Ok') and v[3]:
            v = v[3][0][1]
        if st and v[0] == 'v' and v[1].rsplit('::', 1)[-1] == self.enum:
            while v[3] and v[3][0][1][0] == 'v':            # a comparator as a capability
                v = v[3][0][1]
            if not v[3]:
                self.seen.setdefault(st, set()).add((v[2], line))
        return st


def words(check, F, res, enums):
    """every text is looked up as the word of its name."""
    for enum in enums:
        making = bodies_touching(F, lambda k, n: k == 'agg' and n.startswith(enum + '::'))
        roots = []
        for b in sorted(F.bodies):
            B = F.bodies[b]
            if B.kind == 'fn' and not B.derived and B.argc == 1 and strs(B.locals[1][0]) and (
                    "::%s'" % enum in str(B.locals[0][0])) and F.reach([b]) & making:
                roots.append(b)
        for b in roots:
            B = F.bodies[b]
            r = WordRule(b, enum, {b} | (making & F.reach([b])))
            check.simulate(F, r, [b], '', res)
            for text, got in sorted(r.seen.items()):
                for variant, line in sorted(got):
                    ok = stem(enum, text) == plain(variant)
                    res.ob(1, ok)
                    if not ok:
                        res.bad('word %s' % text, B.file, line, '%s: "%s" is taken for %s' % (B.canon, text, variant))
            if r.seen:
                res.samples.append('%s: %d words' % (B.canon, len(r.seen)))
