"""R05: running a script has no effects but the events it returns."""
import re
from base import Check
from facts import rvalue_places

# what a callee does, told by its path
DENY = (
    ('files', r'^(std|tokio|async_std)::fs\b|^std::path::.*(exists|metadata|canonicalize|read_dir|read_link|is_file|is_dir|try_exists)$|\bPath\w*::(exists|metadata|canonicalize|read_dir|is_file|is_dir)$|^std::os::'),
    ('network', r'^(std|tokio)::net\b|ToSocketAddrs'),
    ('processes', r'^std::process\b|^std::intrinsics::abort|^libc::'),
    ('environment', r'^std::env\b'),
    ('streams', r'^std::io::(stdio|_print|_eprint|stdin|stdout|stderr|copy)|^std::io::(std|Stdin|Stdout|Stderr)'),
    ('threads', r'^std::thread::(spawn|sleep|Builder|scope|park|yield)|^(tokio|rayon)::'),
    ('panic hook', r'^std::panic::(set_hook|take_hook)'),
)
CLOCK = r'(SystemTime|Instant|Date|DateTime|Utc|Local)(::<[^>]*>)?::(now|elapsed|now_utc)$'
MADE = re.compile(r'^mail_builder::')         # the date, id and boundary of a message that is generated
RANDOM = r'(^|::)(rand|fastrand|getrandom|uuid)(::|$)|RandomState::(build_hasher|hash_one)|thread_rng|gethostname'
ORDER = re.compile(r'(AHashMap|AHashSet|HashMap|HashSet|hash_map|hash_set)\b.*(::|\.)(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if)$')
ADAPT = {'map', 'filter', 'filter_map', 'copied', 'cloned', 'into_iter', 'inspect', 'flatten', 'flat_map', 'by_ref'}
NO_ORDER = {'any', 'all', 'count', 'sum', 'min', 'max', 'len', 'min_by_key', 'max_by_key', 'size_hint', 'is_empty', 'contains'}
MUTABLE = re.compile(r"\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|OnceLock|Once|LocalKey|Mutex|RwLock|Condvar|Atomic\w*|ArcSwapAny|ArcSwap)\b")


def fn_refs(b):
    """(callee descriptor, line, is it called there)."""
    for blk in b.blocks:
        if blk['x']:
            continue
        t = blk['t']
        if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
            yield t[1][1], blk['l'], t
        for x in ([t[2]] if t[0] == 'call' else []) + blk['s']:
            st = [x]
            while st:
                y = st.pop()
                if isinstance(y, dict):
                    if 'fn' in y:
                        yield y, blk['l'], None
                elif isinstance(y, (list, tuple)):
                    st.extend(y)


def plain(n):
    return re.sub(r'::<[^<>]*(<[^<>]*>)?[^<>]*>', '', n)


class R05(Check):
    explanation = (
        'Effect analysis over the MIR of every function, closure and constant of the crate: each function called, or passed on as a '
        'value, is classed by its resolved path. None may touch files, network, processes, environment, standard streams or threads; '
        'there is no unsafe block, unsafe function, mutable static or static with interior mutability. Through the call graph from '
        'compiling and running (closures, trait implementations and callbacks included), no function reads the clock or randomness, '
        'except where the date, id and boundary of a message to be generated are made, and no hash map or set is iterated whose order '
        'could reach the outcome.')

    def check(self, F):
        res = self.result()
        run = {F.fn('Context::run').id}
        comp = {F.fn('Compiler::compile').id}
        live = F.reach(run | comp)
        n = {'references': 0, 'classed effects': 0, 'hash iterations': 0, 'clock': 0, 'settings': 0}
        for b in F.bodies.values():
            res.functions += 1
            if getattr(b, 'unsafe', False):
                res.bad('unsafe fn ' + b.canon, b.file, b.line, '%s is an unsafe function' % b.canon)
            for k, line, term in fn_refs(b):
                n['references'] += 1
                res.ob(1)
                names = {plain(x) for x in (k.get('fn'), k.get('res')) if x}
                for what, pat in DENY:
                    hit = [x for x in names if re.search(pat, x.lstrip('<'))]
                    if hit:
                        res.bad('%s %s' % (what, b.canon), b.file, line, '%s reaches outside (%s): %s' % (b.canon, what, sorted(hit)[0]))
                if any(re.search(CLOCK, x) for x in names):
                    n['clock'] += 1
                    if b.id in live and not all(MADE.match(x) for x in names):
                        res.bad('clock ' + b.canon, b.file, line, '%s reads the clock while a script is compiled or run: %s' % (b.canon, self.path(F, run | comp, b.id)))
                if any(re.search(RANDOM, x) for x in names):
                    res.bad('random ' + b.canon, b.file, line, '%s depends on randomness or the host' % b.canon)
                if b.id in live and any(ORDER.search(x) for x in names) or b.id in live and self.over_hash(k):
                    n['hash iterations'] += 1
                    if not (term and self.orderless(b, term)):
                        res.bad('order ' + b.canon, b.file, line, 'the order of a hash map or set may decide the outcome in %s: %s' % (b.canon, self.path(F, run | comp, b.id)))
        for u, f, l in F.raw['unsafe'] if hasattr(F, 'raw') else F.unsafe:
            res.bad('unsafe ' + u, f, l, 'unsafe block in %s' % u)
        st = F.raw['statics'] if hasattr(F, 'raw') else F.statics
        adts = {a['path']: a for a in F.raw['adts']} if hasattr(F, 'raw') else F.adts

        def shared(ty):
            """the types within, through the structures of the crate, that can change behind a shared reference."""
            seen, todo = set(), [ty]
            while todo:
                t = todo.pop()
                r = repr(t)
                if t and t[0] == 'adt' and t[1].rsplit('::', 1)[-1] == 'LazyRegex':
                    continue   # the compiled form of its own expression (C07)
                m = MUTABLE.search(r)
                if m:
                    return m.group(1)
                for p in re.findall(r"\['adt', '([^']+)'", r.replace('(', '[')):
                    if p in adts and p not in seen:
                        seen.add(p)
                        todo += [fl[1] for v in adts[p]['variants'] for fl in v['fields']]
            return None
        for s, mut, ty, f, l in st:
            if mut or shared(ty):
                res.bad('static ' + s, f, l, '%s is state shared by all runs' % s)
        for a in adts.values():
            if a['local'] and a['path'] in ('Compiler', 'Runtime', 'Sieve'):
                n['settings'] += 1
                for v in a['variants']:
                    for fl in v['fields']:
                        if shared(fl[1]):
                            res.bad('shared %s.%s' % (a['path'], fl[0]), a['file'], a['line'], '%s.%s can change while runs share it (%s)' % (a['path'], fl[0], shared(fl[1])))
        if n['settings'] < 3:
            res.bad('unseen settings', 'src/lib.rs', 0, 'Compiler, Runtime and Sieve were not found')
        if n['references'] < 1000 or not n['clock'] or len(live) < 100:
            res.bad('unseen', 'src/lib.rs', 0, 'the functions of the crate were not found')
        res.analysed.update(n)
        res.analysed['functions reached from compile and run'] = len(live)
        res.analysed['statics'] = len(st)
        return res

    @staticmethod
    def over_hash(k):
        """`into_iter` and the like, resolved by the type they are called for."""
        r = k.get('res') or k['fn']
        return bool(re.match(r'<&?(mut )?(\'\w+ )?(ahash::AHash(Map|Set)|std::collections::Hash(Map|Set))<.*> as std::iter::IntoIterator>::into_iter', r))

    @staticmethod
    def orderless(b, term):
        """is the iterator used up in a way that no order can show?"""
        dst = term[3]
        for _ in range(12):
            if len(dst) > 1 and dst[1]:
                return False
            nxt = None
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call' and not blk['x'] and t[2] and t[2][0][0] in ('c', 'm') and t[2][0][1][0] == dst[0] and t[1][0] == 'k' and 'fn' in t[1][1]:
                    nxt = t
            if nxt is None:
                # through a reference: any(&mut it, ..)
                refs = [s[1] for blk in b.blocks for s in blk['s'] if s[0] == '=' and any(p[0] == dst[0] for p, _ in rvalue_places(s[2]))]
                if len(refs) != 1 or refs[0] == dst:
                    return False
                dst = refs[0]
                continue
            m = plain(nxt[1][1]['fn']).rsplit('::', 1)[-1]
            if m in NO_ORDER:
                return True
            if m in ('collect', 'from_iter'):
                return bool(re.search(r'Hash(Map|Set)|BTree', repr(nxt[1][1])))
            if m not in ADAPT:
                return False
            dst = nxt[3]
        return False

    @staticmethod
    def path(F, roots, to):
        seen = {r: None for r in roots}
        todo = list(roots)
        while todo:
            x = todo.pop(0)
            if x == to:
                out = []
                while x:
                    out.append(F.bodies[x].canon)
                    x = seen[x]
                return ' > '.join(reversed(out))
            for y in sorted(F.calls.get(x, ())):
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        return ''

