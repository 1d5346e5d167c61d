"""Steps of the checks that are not only generated calls of the library."""
import json, os, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor


def cli(main, work, prop, seed, tier, driver, plan, ev):
    """The program, built from the current tree, is executed on files of lines and on single lines"""
    program = main.build(work, './cmd', 'modes', main.REPO)
    return main.decide(work, prop, seed, tier, plan, ev, [driver, 'cli', program])


def scan(main, work, prop, seed, tier, driver, plan, ev):
    """The calls of all the families are executed twice, in different orders, by callers at the same time, and once
    more by another process, in the reverse order: what was decoded before changes nothing. Those that stop the
    program, change their octets or answer differently are decided by TLC as the others"""
    fast = main.build(work, name='driver-fast')
    paths = [os.path.join(work, name) for name in ('odd_first.ndjson', 'odd_reverse.ndjson')]
    limit = time.time() + (500 if tier == 'quick' else 4000)
    for path, way in zip(paths, ('first', 'reverse')):
        args = [str(seed), tier, path, os.path.join(work, 'answers'), way]
        try:
            p = subprocess.run([fast, 'scan'] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            raise main.Violation('the library does not answer', main.save(prop, {'property': prop, 'scan': [seed, tier], 'error': 'timeout'}))
        if p.returncode == 3:
            raise main.NoAnswer('driver: ' + p.stderr[-2000:])
        if p.returncode != 0:
            raise main.Violation('the library stops the program: ' + p.stderr[-500:].replace('\n', ' | '),
                                 main.save(prop, {'property': prop, 'scan': [seed, tier], 'error': p.stderr[-8000:]}))
        ev['coverage']['calls_executed_in_several_orders'] = int(p.stdout)
    os.remove(os.path.join(work, 'answers'))
    path = os.path.join(work, 'odd.ndjson')
    with open(path, 'w') as w:
        for one in paths:
            w.write(open(one).read())
    n, met = main.check_file(work, prop, path)
    if n:
        raise main.Violation('%d answers are not always the same, although each of them is allowed' % n,
                             main.save(prop, {'property': prop, 'records': [json.loads(l) for l in open(path)][:50]}))
    return met


def histories(main, work, prop, seed, tier, driver, plan, ev):
    """Histories simulated by TLC are played to a receiver made of the functions of the library; TLC decides of its answers"""
    number = plan['histories'][tier]
    d = tempfile.mkdtemp(prefix='histories-', dir=work)

    def one(k):
        h = os.path.join(d, 'h%d' % k)
        os.mkdir(h)
        out = main.tlc(work, 'Flights', env={'HISTORIES': h}, timeout=800,
                       extra=['-simulate', 'num=%d' % number, '-depth', '250', '-seed', str(1000 * seed + k)])
        lines = []
        for f in sorted(os.listdir(h)):
            lines += open(os.path.join(h, f)).read().splitlines()
        if not lines or 'Finished in' not in out:
            raise main.NoAnswer('no history was simulated:\n' + out[-2000:])
        lines = mixed(main, lines, k)
        path = os.path.join(d, 'received_%d.ndjson' % k)
        played = play(main, prop, driver, '\n'.join(lines) + '\n')
        open(path, 'w').write(played)
        n, bad, out = main.validate(work, path, 'TraceReceiver')
        if bad is not None:
            raise main.Violation(*rejected(main, prop, path, bad, out))
        return path

    with ThreadPoolExecutor(main.CORES) as pool:
        results = list(pool.map(lambda k: main.guarded(one, k), range(main.CORES)))
    for kind in (main.Violation, main.NoAnswer):
        for r in results:
            if isinstance(r, kind):
                raise r
    c = ev['coverage']
    steps, how, samples = 0, {}, []
    for path in results:
        lines = open(path).read().splitlines()
        records = [json.loads(l) for l in lines]
        for r in records:
            if 'answer' in r:
                steps += 1
                a = r['answer']
                key = '%s %s %s' % (r['kind'], a['status'], a['how'])
                how[key.strip()] = how.get(key.strip(), 0) + 1
        samples.append(next(r for r in reversed(records) if 'answer' in r and r['answer']['status'] == 'OK'))
    # An answer that is not the one of the library is rejected
    bad = vary(results[0], seed)
    with ThreadPoolExecutor(main.CORES) as pool:
        def refuse(item):
            k, lines = item
            path = os.path.join(d, 'varied_%d.ndjson' % k)
            open(path, 'w').write('\n'.join(lines) + '\n')
            return main.validate(work, path, 'TraceReceiver')[1] is not None
        told = list(pool.map(refuse, enumerate(bad)))
    c['histories'] = sum(1 for path in results for l in open(path) if '"station"' in l)
    c['receptions_validated'] = steps
    c['receptions_by_kind_and_answer'] = how
    c['calls_validated'] = c.get('calls_validated', 0) + steps
    c['traces_validated_against_impl'] += c['histories']
    c['samples'] += samples[:3]
    c['corrupted_results_tried'] = len(bad)
    c['corrupted_results_rejected'] = sum(told)
    if not all(told) or not bad:
        raise main.NoAnswer('%d of %d corrupted histories accepted' % (told.count(False), len(bad)))
    return []


def mixed(main, lines, k):
    """The transmissions of a recording of real aircraft reach the receiver too, between those of the last history"""
    real = []
    for name in ('one', 'two'):
        part = open(os.path.join(main.HERE, 'driver', 'recordings', name + '.txt')).read().split()
        real += part[len(part) * k // main.CORES:len(part) * (k + 1) // main.CORES]
    first = max(i for i, l in enumerate(lines) if '"station"' in l)
    out, last = lines[:first + 1], lines[first + 1:]
    for n, l in enumerate(last):
        out.append(l)
        t = json.loads(l)['t']
        for f in real[len(real) * n // len(last):len(real) * (n + 1) // len(last)]:
            out.append(json.dumps({'kind': 'any', 'fate': 'recorded', 'frame': list(bytes.fromhex(f)), 't': t}))
    return out


def play(main, prop, driver, text):
    try:
        p = subprocess.run([driver, 'receive'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise main.Violation('the library does not answer', main.save(prop, {'property': prop, 'receive': text.splitlines(), 'error': 'timeout'}))
    if p.returncode != 0:
        raise main.Violation('the library stops the program: ' + p.stderr[-500:].replace('\n', ' | '),
                             main.save(prop, {'property': prop, 'receive': text.splitlines(), 'error': p.stderr[-4000:]}))
    return p.stdout


def rejected(main, prop, path, bad, out):
    """What is told of a history that is not accepted: only the history, from its beginning"""
    lines = open(path).read().splitlines()[:bad]
    first = max(i for i, l in enumerate(lines) if 'station' in json.loads(l))
    last = json.loads(lines[-1])
    replay = main.save(prop, {'property': prop, 'specification': 'TraceReceiver', 'receive': [json.loads(l) for l in lines[first:]], 'tlc': out[-3000:]})
    return 'reception %d of a history (%s, %s): frame %s, the receiver answers %s, which the specification does not allow' % (
        len(lines) - first - 1, last['kind'], last['fate'], last['frame'], json.dumps(last['answer'])), replay


def vary(path, seed):
    """Some histories with one answer changed"""
    lines = open(path).read().splitlines()
    records = [json.loads(l) for l in lines]
    out = []
    for what in ('status', 'address', 'how', 'name', 'altitude', 'position', 'registers', 'even', 'containment', 'advisory', 'air', 'target', 'operation', 'difference'):
        ok = [i for i, r in enumerate(records) if 'answer' in r and r['answer']['status'] == 'OK' and
              (what in ('status', 'address') or (what == 'how' and r['answer']['how'] == 'global') or r['answer']['entry'].get(what))]
        if not ok:
            continue
        i = ok[(7 * seed) % len(ok)]
        r = json.loads(lines[i])
        a = r['answer']
        if what == 'status':
            a['status'] = 'REJ'
        elif what == 'address':
            a['address'] ^= 1
        elif what == 'how':
            a['how'] = 'local'
        elif what == 'name':
            a['entry']['name'] += 'X'
        elif what in ('altitude', 'difference'):
            a['entry'][what] += 25
        elif what == 'position':
            a['entry']['position'][0] += 300
        else:
            a['entry'][what] = []
        out.append(lines[:i] + [json.dumps(r)])
    return out
