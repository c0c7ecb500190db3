#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--ir DIR]: decide one property statically from /repo's current source."""
import sys, os, re, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NVLINT_REPO', '/repo')
sys.path.insert(0, ROOT)
from props import PROPS

FLAGS = ['-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-delete-null-pointer-checks', '-fno-strict-aliasing', '-fno-discard-value-names',
         '-fno-exceptions', '-fstandalone-debug', '-w', '-emit-llvm', '-c']

class Broken(Exception):
    pass

def units():
    mk = open(os.path.join(REPO, 'Makefile')).read()
    res = []
    for var in ('LIB_TARGETS', 'LIB_TARGETS_VM', 'STDLIB_TARGETS'):
        m = re.search(r'^%s\s*=((?:[^\n]*\\\n)*[^\n]*)' % var, mk, re.M)
        if not m:
            raise Broken('Makefile variable %s not found' % var)
        for o in re.findall(r'temp/(lib/)?(\w+)\.o', m.group(1)):
            res.append(('NULLC/includes/' if o[0] else 'NULLC/') + o[1] + '.cpp')
    return res

def build_ir(out, extra):
    src = units()
    def one(s):
        o = os.path.join(out, s.replace('/', '_') + '.bc')
        r = subprocess.run(['clang++'] + FLAGS + extra + [s, '-o', o], cwd=REPO, capture_output=True, text=True)
        return s, r.returncode, r.stderr, o
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        rs = list(ex.map(one, src))
    bad = [r for r in rs if r[1]]
    if bad:
        raise Broken('cannot compile %s to IR:\n%s' % (bad[0][0], bad[0][2][:2000]))
    dst = os.path.join(out, 'all.bc')
    r = subprocess.run(['llvm-link-18'] + [r[3] for r in rs] + ['-o', dst], capture_output=True, text=True)
    if r.returncode:
        raise Broken('llvm-link failed: ' + r.stderr[:2000])
    return dst, len(src)

def wrap_witness(out, extra):
    """instantiates the call wrappers of nullbind.h for every arity and kind of value; '-' if that is not possible"""
    src, o = os.path.join(out, 'wrappers.cpp'), os.path.join(out, 'wrappers.bc')
    with open(src, 'w') as f:
        if subprocess.run([sys.executable, os.path.join(ROOT, 'tool', 'witness', 'gen.py')], stdout=f).returncode:
            raise Broken('the wrapper witness was not generated')
    r = subprocess.run(['clang++'] + FLAGS + extra + ['-I' + REPO, src, '-o', o], cwd=REPO, capture_output=True, text=True)
    return o if r.returncode == 0 else '-'

def ensure_tool():
    r = subprocess.run(['make', '-s', '-j%d' % (os.cpu_count() or 4)], cwd=os.path.join(ROOT, 'tool'), capture_output=True, text=True)
    if r.returncode:
        raise Broken('tool does not build: ' + r.stderr[-2000:])
    return os.path.join(ROOT, 'tool', 'build', 'nvlint')

def known(prop):
    res = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res

def run_rule(tool, ir, rule):
    r = subprocess.run([tool, ir] + rule.split(), capture_output=True, text=True)
    if r.returncode:
        raise Broken('nvlint %s failed with %d: %s' % (rule, r.returncode, r.stderr[-1000:]))
    d = json.loads(r.stdout)
    d['name'] = rule
    return d

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    irdir = None
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--ir' in args:
        irdir = args[args.index('--ir') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='nvlint.')
    try:
        tool = ensure_tool()
        configs = [('NDEBUG', ['-DNDEBUG'])]
        if tier == 'thorough':
            configs.append(('no raw external calls', ['-DNDEBUG', '-DNULLC_NO_RAW_EXTERNAL_CALL']))
        viol, stats, samples, broken = [], {}, [], []
        seen = set()
        for name, extra in configs:
            d = os.path.join(tmp, re.sub(r'\W', '_', name))
            os.mkdir(d)
            if irdir and name == 'NDEBUG':
                ir, nunits = os.path.join(irdir, 'all.bc'), 0
            else:
                ir, nunits = build_ir(d, extra)
            rules = [r.replace('@wrap', wrap_witness(d, extra)) if '@wrap' in r else r for r in spec['rules']]
            with ThreadPoolExecutor(max_workers=4) as ex:
                res = list(ex.map(lambda r: run_rule(tool, ir, r), rules))
            for r in res:
                r['name'] = r['name'].split()[0] if os.sep in r['name'] else r['name']
                if r['broken'] and name == 'NDEBUG':
                    broken.append('%s: %s' % (r['name'], '; '.join(r['broken'])))
                for k, v in r['stats'].items():
                    stats.setdefault(name, {})[r['name'] + '.' + k] = v
                samples += ['[%s] %s' % (r['name'], s) for s in r['samples'][:15]]
                for v in r['violations']:
                    key = '%s|%s|%s' % (v['rule'], v['function'], v['key'])
                    if key not in seen:
                        seen.add(key)
                        v['id'] = key
                        v['config'] = name
                        viol.append(v)
            stats.setdefault(name, {})['translation_units'] = nunits
        kn = known(prop)
        new = [v for v in viol if v['id'] not in kn]
        old = [v for v in viol if v['id'] in kn]
        if broken and not new:
            raise Broken('; '.join(broken))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
              'coverage': {'explanation': spec['explain'], 'rules': spec['rules'], 'measured': stats, 'samples': samples[:40],
                           'violations': len(new), 'known_findings': [v['id'] for v in old]},
              'wall_s': round(time.time() - t0, 2)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        for v in old:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[v['id']]))
        rc = 0
        if new:
            rep = os.path.join(ROOT, 'evidence', prop + '.violations.json')
            json.dump(new, open(rep, 'w'), indent=1)
            for v in new:
                print('%s:%s: %s: in %s: %s [%s]' % (v['file'], v['line'], v['rule'], v['function'], v['detail'], v['id']))
                for p in v.get('path', []):
                    print('    ' + p)
            print('VIOLATION property=%s replay=%s' % (prop, rep))
            rc = 1
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
        if rc == 0:
            print('%s: held (%s)' % (prop, ', '.join('%s=%s' % kv for kv in sorted(stats['NDEBUG'].items()))))
        return rc
    except Broken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
