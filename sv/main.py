"""Runs one check: builds the driver and the facts of /repo's working tree,
applies the rule, prints the verdict and writes the evidence."""
import importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SV_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)

from facts import Facts, Missing          # noqa: E402
from rules import RULES                   # noqa: E402


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise SystemExit('sieve-verif: command failed: %s' % ' '.join(cmd))
    return r.stdout


def build_facts(work, features=None):
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env['PATH'] = env['HOME'] + '/.cargo/bin:' + env.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['CARGO_INCREMENTAL'] = '0'
    drv = os.path.join(work, 'driver')
    if not os.path.exists(drv):
        sh(['rustc', '+nightly', '--edition', '2021', '-C', 'prefer-dynamic', '-A', 'warnings',
            os.path.join(ROOT, 'driver', 'main.rs'), '-o', drv], env=env, cwd=work)
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env=env, cwd=work).strip()
    out = os.path.join(work, 'facts%s.json' % ('-' + features.replace(',', '-') if features else ''))
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    env['RUSTC_WORKSPACE_WRAPPER'] = drv
    env['SV_FACTS'] = out
    env['CARGO_TARGET_DIR'] = os.path.join(work, 'target')
    lock = os.path.join(REPO, 'Cargo.lock')
    made = False
    if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', lock)
        made = True
    try:
        cmd = ['cargo', '+nightly', 'check', '--offline', '--lib']
        if features:
            cmd += ['--features', features]
        sh(cmd, env=env, cwd=REPO)
    finally:
        if made:
            os.unlink(lock)
    if not os.path.exists(out):
        raise SystemExit('sieve-verif: the driver wrote no facts')
    return out


def load_known():
    known = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                f = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
                what = l[9:].split(' ', 2)[2] if len(l[9:].split(' ', 2)) > 2 else ''
                known[(f['property'], f['key'])] = what
    return known


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname, cls = RULES[pid]
    os.makedirs(os.path.join(ROOT, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(ROOT, '.work'))
    try:
        mod = importlib.import_module(modname)
        rule = getattr(mod, cls)()
        feats = [None]
        if getattr(rule, 'features', None):
            feats = [rule.features]
        elif tier == 'thorough':
            feats = [None, 'serde,rkyv']
        viol, cov = {}, None
        for ft in feats:
            dev = os.environ.get('SV_DEV_FACTS')
            path = dev if dev and not ft else build_facts(work, ft)
            F = Facts(path)
            try:
                res = rule.check(F)
            except Missing as e:
                res = rule.result()
                res.bad('anchor:' + str(e), '?', 0, 'an anchor of the rule is missing: %s' % e)
            for k, v in res.violations.items():
                viol.setdefault(k, v)
            if cov is None:
                cov = res
            else:
                cov.obligations += res.obligations
                cov.discharged += res.discharged
        known = load_known()
        rc = 0
        fresh = []
        for k, v in sorted(viol.items()):
            if (pid, k.replace(' ', '_')) in known:
                print('KNOWN-FINDING: property=%s %s:%s %s [%s]' % (pid, v[0], v[1], v[2], k.replace(' ', '_')))
            else:
                fresh.append((k, v))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        rep = os.path.join(ROOT, 'evidence', pid + '.report.txt')
        if os.path.exists(rep):
            os.unlink(rep)
        if fresh:
            with open(rep, 'w') as f:
                for k, v in fresh:
                    line = '%s:%s: %s [key %s]' % (v[0], v[1], v[2], k.replace(' ', '_'))
                    f.write(line + '\n')
                    print(line)
            print('VIOLATION property=%s replay=%s' % (pid, rep))
            rc = 1
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': rule.explanation,
                'obligations': cov.obligations,
                'discharged': cov.discharged,
                'functions_analysed': cov.functions,
                'analysed': cov.analysed,
                'configurations': [f or 'default features' for f in feats],
                'samples': cov.samples[:40],
            },
            'violations': len(fresh),
            'assumptions': rule.assumptions,
            'wall_s': round(time.time() - t0, 2),
        }
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d functions, %d violations, %.1fs' % (
            pid, cov.obligations, cov.discharged, cov.functions, len(fresh), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
