"""plant.py [--no-check|--quick|--tests] [-j N] [--props P01,P02] id|file.diff...: confirms planted bugs and runs the checks
against them, each in its own copy of /repo and /verif (bound over /repo and /verif in a mount namespace).
A plain patch file (a behaviour-preserving edit) is checked with the properties of --props."""
import json, os, subprocess, sys, re, shutil, queue, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('PLANT_ROOT', '/tmp/pl')


def sh(cmd, cwd='/repo', timeout=1500, inp=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, input=inp)
    return p.returncode, p.stdout


class Worker:
    def __init__(self, n):
        self.d = '%s/w%d' % (ROOT, n)
        os.makedirs(self.d, exist_ok=True)
        for x, src in (('repo', '/repo'), ('verif', V)):
            dst = '%s/%s' % (self.d, x)
            if not os.path.exists(dst):
                sh('cp -a %s %s' % (src, dst), '/')
        # the working copies follow the originals
        sh('git -C %s/repo fetch -q /repo HEAD && git -C %s/repo reset -q --hard FETCH_HEAD' % (self.d, self.d), '/')
        sh('cd %s && tar cf - --exclude=.work --exclude=.git . | tar xf - -C %s/verif' % (V, self.d), '/')
        sh('cp -au %s/.work/. %s/verif/.work/' % (V, self.d), '/')

    def run(self, cmd, timeout=1500):
        return sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s'" % (self.d, self.d, cmd), '/', timeout)

    def reset(self):
        sh('git -C %s/repo checkout -q -- .' % self.d, '/')

    def bug(self, i, opts):
        out = [i]
        if i.endswith('.diff'):
            patch, props, d = os.path.abspath(i), opts['props'], None
            f = os.path.dirname(patch) + '/props.json'
            if not props and os.path.exists(f):
                props = json.load(open(f)).get(os.path.basename(i)[:-5])
        else:
            d = '%s/seeded/%s' % (V, i)
            patch = d + '/patch.diff'
            props = opts['props'] or [json.load(open(d + '/meta.json'))['property']]
        self.reset()
        if d and not opts['quick']:
            rc, o = self.run('bash %s/demo.sh' % d)
            out.append('clean demo %s' % ('ok' if rc == 0 else 'FAILS:' + o[-1500:]))
        rc, o = sh('git apply %s' % patch, self.d + '/repo')
        if rc:
            return '%s DOES NOT APPLY %s' % (i, o)
        try:
            if not opts['quick']:
                rc, o = self.run('bash /opt/vp/test.sh /verif/.work/plant.json')
                try:
                    r = json.load(open(self.d + '/verif/.work/plant.json'))
                    f = r.get('failed') or []
                    out.append('tests: %d passed, failed %s' % (len(r.get('passed', [])), f[:5]))
                except Exception as e:
                    out.append('tests: %s %s' % (e, o[-800:]))
                if d:
                    rc, o = self.run('bash %s/demo.sh' % d)
                    out.append('demo %s' % ('catches' if rc != 0 else 'DOES NOT CATCH'))
            if opts['proofs']:
                rc, o = self.run('python3-vt /verif/tools/proofs.py %s' % ' '.join(props))
                out += o.rstrip().splitlines()[-40:]
            elif opts['check']:
                for p in props:
                    t = time.time()
                    rc, o = self.run('bash /verif/check.sh %s' % p)
                    ls = [l for l in o.splitlines() if re.match('VIOLATION|.{8,12}obligations: |FAILED|UNDECIDED|Trace|ERROR|P\\d\\d:', l)]
                    v = re.search('VIOLATION property=%s .*' % p, o)
                    s = 'alarm' if d is None else 'CAUGHT'
                    res = ('quiet' if d is None else 'MISSED') if rc == 0 else (s + (' (no failing input)' if 'no-failing-input-found' in v.group(0) else ' (failing input)')) if rc == 1 and v else 'BROKEN'
                    out.append('%s rc=%d %s %.0f s' % (p, rc, res, time.time() - t))
                    if res != 'quiet':
                        out += ['   ' + l[:260] for l in ls[:opts['lines']]]
                    elif any(l.startswith('UNDECIDED') for l in ls):
                        out += ['   ' + l[:260] for l in ls[:2]]
        finally:
            self.reset()
        return '\n   '.join(out)


def main():
    a = sys.argv[1:]
    opts = {'check': True, 'quick': False, 'props': None, 'lines': 5, 'proofs': '--proofs' in sys.argv}
    a = [x for x in a if x != '--proofs']
    ids, j, k = [], 3, 0
    while k < len(a):
        if a[k] == '--no-check':
            opts['check'] = False
        elif a[k] == '--quick':
            opts['quick'] = True
        elif a[k] == '--props':
            k += 1
            opts['props'] = a[k].split(',')
        elif a[k] == '-j':
            k += 1
            j = int(a[k])
        else:
            ids.append(a[k])
        k += 1
    q = queue.Queue()
    for i in ids:
        q.put(i)

    def work(n):
        w = Worker(n)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                print(w.bug(i, opts), flush=True)
            except Exception as e:
                print(i, 'ERROR', e, flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(min(j, len(ids)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
