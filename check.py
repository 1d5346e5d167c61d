#!/usr/bin/env python3
"""Runner of the checks: check.py <property> quick|thorough, check.py replay <file>, check.py setup.

For a property it
  1. model-checks the parts of the TLA+ specification the property stands on (TLC);
  2. builds the driver and the library from /repo, executes the library on generated inputs and records its answers;
  3. has TLC decide whether every recorded answer is one that the specification allows (trace validation).
Exit status: 0 the property held on everything explored, 1 violation (a VIOLATION line tells which), 2 no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
EVIDENCE = os.path.join(HERE, 'evidence')
REPO = '/repo'
JAR = '/opt/veriftools/tla/tla2tools.jar'
MODULES = '/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8

sys.path.insert(0, HERE)
from plan import PLAN                                                   # noqa: E402


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def environment(work):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off', LC_ALL='C.UTF-8')
    e.setdefault('HOME', '/root')
    if not os.access(e['HOME'], os.W_OK):
        e['GOCACHE'] = os.path.join(work, 'gocache')
    e['GOTMPDIR'] = work
    return e


def build(work, package='.', name='driver', source=None, flags=(), left_out=None):
    """Builds a program from the current tree of /repo."""
    src = source or os.path.join(HERE, 'driver')
    if source is None:
        src = os.path.join(work, 'driver-src')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(HERE, 'driver'), src)
    out = os.path.join(work, name)
    while True:
        p = subprocess.run(['go', 'build'] + list(flags) + ['-o', out, package], cwd=src, env=environment(work), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode == 0:
            return out
        # A block that the library does not export any more is left out
        gone = set(re.findall(r'^\S*\b(block_\w+\.go):\d+', p.stdout, re.M)) if source is None else set()
        if not gone:
            raise NoAnswer('build failed:\n' + p.stdout)
        for f in gone:
            os.remove(os.path.join(src, f))
            if left_out is not None:
                left_out.append(f)


def tlc(work, module, config=None, env=None, workers=1, heap='3g', timeout=800, extra=(), tag='', cwd=SPEC):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work)
    e = environment(work)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss32m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', JAR + ':' + MODULES, 'tlc2.TLC',
           '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', (config or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise NoAnswer('TLC did not finish in %d s: %s' % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def counts(out):
    m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', out, re.M)
    if not m:
        return 0, 0
    return tuple(int(x.replace(',', '')) for x in m[-1])


def model(work, name, config, constants, workers, timeout):
    """Model-checks a module of the specification. A failure here is a fault of the specification, not of the library."""
    cfg = config or name
    cwd = SPEC
    if constants:
        cwd = os.path.join(tempfile.mkdtemp(prefix='spec-', dir=work), 'spec')
        shutil.copytree(SPEC, cwd)
        text = open(os.path.join(cwd, cfg + '.cfg')).read()
        for k, v in constants.items():
            sign = '' if k.endswith('<-') else ' ='
            text, n = re.subn(r'\b%s%s\s*\S.*' % (re.escape(k), sign.replace(' ', r'\s*')), lambda _: '%s%s %s' % (k, sign, v), text)
            if n != 1:
                raise NoAnswer('no constant %s in %s' % (k, cfg))
        open(os.path.join(cwd, cfg + '.cfg'), 'w').write(text)
    out = tlc(work, name, cfg, workers=workers, heap='6g', timeout=timeout, cwd=cwd)
    if 'No error has been found' not in out:
        raise NoAnswer('the specification itself does not satisfy %s/%s:\n%s' % (name, cfg, out[-4000:]))
    generated, distinct = counts(out)
    return {'module': name, 'config': cfg, 'constants': constants, 'states': distinct, 'transitions': generated}


def proofs(work, zones, seed, workers):
    """Apalache decides CprForAll, for all the positions, a number of zones at a time"""
    text = open(os.path.join(SPEC, 'CprForAll.tla')).read()
    done, lost = [], []

    def prove(z):
        d = tempfile.mkdtemp(prefix='apalache-', dir=work)
        mine, n = re.subn(r'^Z == .*$', 'Z == %d' % z, text, flags=re.M)
        if n != 1:
            raise NoAnswer('no number of zones in CprForAll')
        open(os.path.join(d, 'CprForAll.tla'), 'w').write(mine)
        shutil.copy(os.path.join(SPEC, 'CprIndex.tla'), d)
        e = environment(work)
        e.update(JVM_ARGS='-Xmx2g', TMPDIR=d)
        try:
            p = subprocess.run(['apalache-mc', 'check', '--out-dir=' + os.path.join(d, 'out'), '--length=0', '--init=Init', '--next=Next', '--inv=Always', 'CprForAll.tla'],
                               cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, errors='replace')
            out = p.stdout
        except (OSError, subprocess.TimeoutExpired) as x:
            out = str(x)
        shutil.rmtree(d, ignore_errors=True)
        if 'The outcome is: NoError' in out:
            done.append(z)
        elif 'The outcome is: Error' in out:                               # a fault of the specification, not of the library
            raise NoAnswer('CprForAll does not hold for %d zones:\n%s' % (z, out[-3000:]))
        else:
            lost.append(z)

    with ThreadPoolExecutor(workers) as pool:
        for r in pool.map(lambda z: guarded(prove, z), sorted(set(zones) | {2 + 13 * seed % 59})):
            if isinstance(r, Exception):
                raise r
    return {'module': 'CprForAll', 'tool': 'Apalache', 'zones_decided_for_all_positions': sorted(done), 'no_answer_of_the_tool': sorted(lost), 'states': 0, 'transitions': 0}


def show(work, records):
    """What the specification expects of some records: (expected, actual) texts."""
    path = os.path.join(work, 'show-%d.ndjson' % time.time_ns())
    with open(path, 'w') as f:
        for r in records:
            f.write(json.dumps(r) + '\n')
    out = tlc(work, 'Show', env={'TRACE': path}, timeout=300)
    out = re.sub(r'\s*\n\s+', ' ', out)
    found = re.findall(r'<<\s*"RECORD",\s*(\d+),\s*"EXPECTED",\s*"(.*?)",\s*"ACTUAL",\s*"(.*?)"\s*>>\s*$', out, re.M)
    return {int(i): (e.replace('\\"', '"'), a.replace('\\"', '"')) for i, e, a in found}


def known(prop):
    """The genuine defects that are recorded and not repaired."""
    r = []
    path = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(path):
        for f in json.load(open(path)).get('open', []):
            if f['property'] == prop:
                r.append(f)
    return r


def save(prop, what):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, int(time.time() * 1000) % 10**10))
    json.dump(what, open(path, 'w'), indent=1)
    return path


def validate(work, path, module='Trace', timeout=800):
    """TLC on one file of records: (number of records, rejected index or None, text)"""
    n = sum(1 for _ in open(path))
    if n == 0:
        return 0, None, ''
    out = tlc(work, module, env={'TRACE': path}, timeout=timeout)
    if 'No error has been found' in out and re.search(r'^%d states generated' % (n + 1), out, re.M):
        return n, None, out
    generated, _ = counts(out)
    if generated == 0:
        raise NoAnswer('TLC failed on %s:\n%s' % (path, out[-3000:]))
    if generated > n:
        raise NoAnswer('TLC gave no decision on %s:\n%s' % (path, out[-3000:]))
    return n, generated, out                                               # the record number "generated" is rejected


def line(path, n):
    with open(path) as f:
        for k, l in enumerate(f, 1):
            if k == n:
                return json.loads(l)


def check_file(work, prop, path, module='Trace'):
    """Validates a file; the known findings are skipped. Returns (records accepted, findings met)"""
    met = []
    accepted = 0
    while True:
        n, bad, out = validate(work, path, module)
        if bad is None:
            return accepted + n, met
        rec = line(path, bad)
        for k in known(prop):
            if k['record'] == rec[:-1]:
                met.append(k)
                break
        else:
            expected = ''
            if module == 'Trace':
                s = show(work, [rec])
                if 1 in s:
                    expected = s[1][0]
                    if s[1][0] == s[1][1] and 'MISMATCH' not in out:
                        raise NoAnswer('TLC stopped on a record whose result is the expected one: %s\n%s' % (rec, out[-2000:]))
            what = {'property': prop, 'record': rec, 'expected': expected, 'specification': module}
            if module != 'Trace':
                what['trace'] = [json.loads(l) for l in open(path)][:bad]
                what['tlc'] = out[-4000:]
            replay = save(prop, what)
            raise Violation('%s: the library answers %s; the specification expects %s' % (json.dumps(rec[:-1]) if isinstance(rec, list) else bad,
                            json.dumps(rec[-1]) if isinstance(rec, list) else json.dumps(rec), expected or 'otherwise'), replay)
        accepted += bad - 1
        rest = path + '.rest'
        with open(path) as f, open(rest, 'w') as g:
            for i, l in enumerate(f, 1):
                if i > bad:
                    g.write(l)
        os.replace(rest, path)
        if os.path.getsize(path) == 0:
            return accepted, met


def corrupt(rec):
    """Changes one element of a result"""
    out = rec[-1]
    bad = json.loads(json.dumps(out))
    if rec[0] == 'cli':                                  # the words of a refusal are free, not the number of lines
        if len(bad) > 2:
            bad[2][1] += 'x'
        else:
            bad.append(["a", "b", 0])
        return rec[:-1] + [bad]
    if rec[0] == 'text' and len(bad) > 1:
        k = len(json.dumps(rec)) % (len(bad) - 1) + 1
        bad[k][1] += 'x'
        return rec[:-1] + [bad]
    for i in range(len(bad) - 1, -1, -1):
        if isinstance(bad[i], int):
            bad[i] += 5000000 if rec[0] in ('air', 'surf', 'airl', 'surfl', 'dist', 'gs') else 1
            return rec[:-1] + [bad]
        if isinstance(bad[i], str):
            bad[i] += 'x'
            return rec[:-1] + [bad]
        if isinstance(bad[i], list) and bad[i] and isinstance(bad[i][-1], int):
            bad[i][-1] += 1
            return rec[:-1] + [bad]
    return None


def sensitivity(work, files):
    """Shows that the validation is not vacuous: corrupted records are rejected. (rejected, tried)"""
    recs = []
    for f in files:
        lines = open(f).read().splitlines()
        for l in lines[::max(1, len(lines) // 25)]:
            c = corrupt(json.loads(l))
            if c is not None:
                recs.append(c)
    path = os.path.join(work, 'corrupted.ndjson')
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    out = tlc(work, 'Reject', env={'TRACE': path}, timeout=300)
    m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
    if not m:
        raise NoAnswer('no result of the corrupted records:\n' + out[-2000:])
    return len(recs) - int(m.group(1)), len(recs)


def calls(work, prop, seed, tier, driver, plan, ev):
    """Records the answers of the library to generated calls and validates them"""
    return decide(work, prop, seed, tier, plan, ev, [driver, 'gen', prop])


def decide(work, prop, seed, tier, plan, ev, command):
    """Records the answers to the calls that a command generates (its last arguments are added here) and validates them"""
    d = tempfile.mkdtemp(prefix='traces-', dir=work)
    shards = plan.get('shards', {}).get(tier, CORES if tier == 'quick' else 4 * CORES)
    try:
        p = subprocess.run(command + [str(seed), tier, str(shards), d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=400 if tier == 'quick' else 3000)
    except subprocess.TimeoutExpired:
        raise Violation('the library does not answer', save(prop, {'property': prop, 'gen': [prop, seed, tier], 'error': 'timeout'}))
    if p.returncode == 3:
        raise NoAnswer('driver: ' + p.stderr[-2000:])
    if p.returncode != 0:
        raise Violation('the library stops the program: ' + p.stderr[-500:].replace('\n', ' | '), save(prop, {'property': prop, 'gen': [prop, seed, tier], 'error': p.stderr[-8000:]}))
    ops = dict((l.split()[0], int(l.split()[1])) for l in p.stdout.splitlines())
    files = [os.path.join(d, 'trace_%d.ndjson' % i) for i in range(shards)]
    distinct = set()
    samples = []
    for f in files:
        lines = open(f).read().splitlines()
        distinct.update(hash(l) for l in lines)
        if lines and len(samples) < 4:
            samples.append(json.loads(lines[len(lines) // 2]))
    with ThreadPoolExecutor(CORES) as pool:
        results = [r for r in pool.map(lambda f: guarded(check_file, work, prop, f), files)]
    failures = [r for r in results if isinstance(r, Exception)]
    for r in failures:
        if isinstance(r, Violation):
            raise r
    for r in failures:
        raise r
    total = sum(r[0] for r in results)
    met = [k for r in results for k in r[1]]
    c = ev['coverage']
    c['calls_validated'] = c.get('calls_validated', 0) + total
    c['distinct_calls'] = c.get('distinct_calls', 0) + len(distinct)
    c.setdefault('calls_by_operation', {}).update(ops)
    c['traces_validated_against_impl'] = c.get('traces_validated_against_impl', 0) + sum(1 for r in results if r[0])
    s = show(work, samples)
    c['samples'] += [{'call': r[:-1], 'library': r[-1], 'specification': s.get(i, ('', ''))[0]} for i, r in enumerate(samples, 1)]
    rejected, tried = sensitivity(work, files)
    c['corrupted_results_rejected'] = c.get('corrupted_results_rejected', 0) + rejected
    c['corrupted_results_tried'] = c.get('corrupted_results_tried', 0) + tried
    if rejected != tried and not plan.get('tolerant'):
        raise NoAnswer('%d of %d corrupted results accepted' % (tried - rejected, tried))
    return met


def guarded(f, *args):
    try:
        return f(*args)
    except (Violation, NoAnswer) as e:
        return e


def check(prop, tier, seed):
    start = time.time()
    plan = PLAN[prop]
    work = tempfile.mkdtemp(prefix='verif-' + prop + '-')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': 0.0, 'violations': 0,
          'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'models': []},
          'assumptions': plan.get('assumptions', [])}
    status = 0
    try:
        left_out = []
        try:
            driver = build(work, flags=['-race'] if plan.get('race') else [], left_out=left_out)
        except NoAnswer:
            if not plan.get('race'):
                raise
            driver = build(work, left_out=left_out)
            ev['assumptions'] = ev['assumptions'] + ['the race detector was not available']
        if left_out:
            ev['assumptions'] = ev['assumptions'] + ['not exported any more, left out: ' + ' '.join(sorted(left_out))]
            print('left out: ' + ' '.join(sorted(left_out)))
        with ThreadPoolExecutor(1) as side:
            future = side.submit(lambda: [model(work, m[0], m[1], m[2].get(tier, {}), 4 if tier == 'quick' else CORES, 800 if tier == 'quick' else 3000)
                                          for m in plan['models'] if tier in m[3]] +
                                         ([proofs(work, plan['zones'][tier], seed, 2 if tier == 'quick' else 4)] if 'zones' in plan else []))
            met = []
            try:
                for step in plan.get('steps', ['calls']):
                    if step == 'calls':
                        met += calls(work, prop, seed, tier, driver, plan, ev)
                    else:
                        module = __import__('steps')
                        met += getattr(module, step)(sys.modules['__main__'], work, prop, seed, tier, driver, plan, ev)
            finally:
                models = future.result()
        ev['coverage']['models'] = models
        ev['coverage']['states'] = sum(m['states'] for m in models)
        ev['coverage']['transitions'] = sum(m['transitions'] for m in models)
        for k in known(prop):
            if k not in met:
                print('note: the known finding %s was not met' % k['what'])
        for k in met:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        c = ev['coverage']
        print('%s %s: %d states of the models, %d calls validated, %d traces' % (prop, tier, c['states'], c.get('calls_validated', 0), c['traces_validated_against_impl']))
    except Violation as v:
        ev['violations'] = 1
        if not ev['coverage']['samples']:
            ev['coverage']['samples'] = [v.what]
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, v.replay))
        status = 1
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        status = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev['wall_s'] = round(time.time() - start, 2)
    if status != 2:
        os.makedirs(EVIDENCE, exist_ok=True)
        json.dump(ev, open(os.path.join(EVIDENCE, prop + '.json'), 'w'), indent=1)
    return status


def replay(path):
    """Executes again the call of a violation, and tells what the library and the specification say"""
    what = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        driver = build(work)
        if 'receive' in what:
            import steps
            if 'error' in what:
                print(what['error'])
                return 1
            f = os.path.join(work, 'r.ndjson')
            open(f, 'w').write(steps.play(sys.modules['__main__'], what['property'], driver, ''.join(json.dumps(l) + '\n' for l in what['receive'])))
            _, bad, _ = validate(work, f, 'TraceReceiver')
            print('rejected: ' + json.dumps(line(f, bad)) if bad else 'accepted')
            return 1 if bad else 0
        if 'record' not in what or not isinstance(what['record'], list):
            print(json.dumps(what, indent=1))
            return 1
        rec = what['record']
        if rec[0].startswith('cli'):
            os.environ['MODES_CLI'] = build(work, './cmd', 'modes', REPO)
        p = subprocess.run([driver, 'eval'], input=json.dumps(rec[:-1]) + '\n', stdout=subprocess.PIPE, text=True, timeout=60)
        now = json.loads(p.stdout)
        f = os.path.join(work, 'r.ndjson')
        open(f, 'w').write(p.stdout)
        _, bad, _ = validate(work, f)
        print('call:          %s' % json.dumps(now[:-1]))
        print('library:       %s' % json.dumps(now[-1]))
        print('specification: %s' % show(work, [now]).get(1, ('?',))[0])
        print('rejected' if bad else 'accepted')
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    work = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        build(work)
        for f in sorted(os.listdir(SPEC)):
            if f.endswith('.tla'):
                p = subprocess.run(['java', '-cp', JAR + ':' + MODULES, 'tla2sany.SANY', f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0 or '*** Errors' in p.stdout or 'rror' in p.stdout.replace('Semantic errors:', ''):
                    print(p.stdout)
                    return 1
        print('ready')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        return setup()
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in PLAN or sys.argv[2] not in ('quick', 'thorough'):
        print(__doc__)
        return 2
    return check(sys.argv[1], sys.argv[2], int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    sys.exit(main())
