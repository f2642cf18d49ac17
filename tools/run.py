#!/usr/bin/env python3
"""check driver:  run.py <PROPERTY> [quick|thorough]      (also: run.py <PROPERTY> --case N)

Builds the harness of the property against /repo's working tree, walks its case space in parallel
shards, confirms every failure in a fresh process, and writes evidence/<PROPERTY>.json.
"""
import fcntl, importlib.util, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS

VERIF = B.VERIF
NPROC = os.cpu_count() or 8


def known(pid):
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Shard:
    def __init__(self, exe, args, i, n, tmp, env, stall, wall):
        self.exe, self.args, self.i, self.n, self.tmp, self.env = exe, args, i, n, tmp, env
        self.stall, self.wall = stall, wall
        self.frm = 0
        self.seg = 0
        self.crashes = []
        self.results = []
        self.states = set()
        self.lost = 0
        self.done = False
        self.start()

    def start(self):
        self.seg += 1
        self.out = os.path.join(self.tmp, 's%d_%d.json' % (self.i, self.seg))
        self.shmf = os.path.join(self.tmp, 'shm%d_%d' % (self.i, self.seg))
        self.err = open(os.path.join(self.tmp, 'err%d_%d' % (self.i, self.seg)), 'wb')
        cmd = [self.exe, '--shard', str(self.i), '--nshards', str(self.n), '--from', str(self.frm),
               '--out', self.out, '--shm', self.shmf] + self.args
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=self.err, env=self.env, cwd=self.tmp,
                                  start_new_session=True)
        self.last = (None, time.time())

    def shm(self):
        try:
            with open(self.shmf, 'rb') as f:
                return struct.unpack('lll', f.read(24))
        except Exception:
            return (-1, 0, 0)

    def poll(self):
        if self.done:
            return True
        rc = self.p.poll()
        cur, _, beat = self.shm()
        if rc is None:
            if (cur, beat) != self.last[0]:
                self.last = ((cur, beat), time.time())
            elif time.time() - self.last[1] > self.stall:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                self.crash(cur, 'hang', 'no progress for %d s' % self.stall)
            return self.done
        if rc == 0 and os.path.exists(self.out):
            self.results.append(json.load(open(self.out)))
            sf = self.out + '.states'
            if os.path.exists(sf):
                d = open(sf, 'rb').read()
                self.states.update(struct.unpack('<%dQ' % (len(d) // 8), d))
                os.unlink(sf)
            self.done = True
            return True
        self.err.flush()
        tail = open(self.err.name, 'rb').read()[-3000:].decode('utf8', 'replace')
        why = 'signal %d' % -rc if rc < 0 else 'exit %d' % rc
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', tail if len(tail) < 3000 else open(self.err.name, 'rb').read().decode('utf8', 'replace'))
        if m:
            why = 'asan ' + m.group(1)
        self.crash(cur, 'crash', why)
        return self.done

    def crash(self, cur, kind, why):
        self.crashes.append((cur, kind, why))
        if cur < 0 or len(self.crashes) >= 12:
            self.done = True
            return
        self.frm = cur + 1
        self.start()


def confirm(exe, args, env, tmp, idx, limit, extra=()):
    """Runs one case alone. Returns (list of failure keys, description, what)"""
    out = os.path.join(tmp, 'confirm.json')
    shmf = os.path.join(tmp, 'confirm.shm')
    for f in (out, shmf):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, '--only', str(idx), '--out', out, '--shm', shmf] + list(args) + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp, timeout=limit)
        err = p.stderr.decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        err = (e.stderr or b'').decode('utf8', 'replace')
        rc = None
    desc = ''
    try:
        with open(shmf, 'rb') as f:
            d = f.read()
            desc = d[24:].split(b'\0')[0].decode('utf8', 'replace')
    except Exception:
        pass
    if rc == 0 and os.path.exists(out):
        j = json.load(open(out))
        return [(f['key'], f['msg']) for f in j['fails']], desc, 'ok', err
    cls = desc.split(' :: ')[0] if desc else '?'
    if rc is None:
        return [('hang:' + desc, 'the case does not terminate within %d s' % limit)], desc, 'hang', err
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    what = 'asan ' + m.group(1) if m else ('signal %d' % -rc if rc < 0 else 'exit %d' % rc)
    loc = ''
    m = re.findall(r'#\d+ 0x\w+ in (.*?) /repo/((?:src|include)/[^\s:]+:\d+)', err)
    if m:
        loc = ' in %s at %s' % m[0]
    return [('crash:' + desc, what + loc)], desc, 'crash', err


def slug(k):
    return re.sub(r'[^\w.,:;=()\[\]+-]+', '_', k)[:300]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(B.BUILD, exist_ok=True)
    parts = c['parts']
    tot = dict(evaluations=0, transitions=0, skipped=0, cases=0)
    classes, samples, states, notes, fails = {}, [], set(), {}, {}
    capped = False
    part_info = {}
    build_s = 0
    for part in parts:
        if part.get('tier') and part['tier'] != tier:
            continue
        tb = time.time()
        with open(os.path.join(B.BUILD, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            exe = B.build(part['variant'], os.path.join(VERIF, 'harness', part['harness']), only=part.get('only'),
                          extra_src=[os.path.join(VERIF, 'harness', s) for s in part.get('extra_src', [])],
                          extra_flags=part.get('extra_flags', []))
        build_s += time.time() - tb
        env = dict(os.environ)
        env.update({'OMP_NUM_THREADS': '1', 'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=0:allow_user_segv_handler=0',
                    'LC_ALL': 'C', 'MALLOC_PERTURB_': '165'})
        env.update(part.get('env', {}))
        args = ['--tier', tier, '--seed', str(seed)] + part.get('args', [])
        if len(sys.argv) > 3 and sys.argv[2] == '--case':
            args = ['--tier', os.environ.get('VERIF_TIER', 'quick'), '--seed', '1'] + part.get('args', [])
            tmp = tempfile.mkdtemp(prefix='vf_')
            r, desc, how, err = confirm(exe, args, env, tmp, int(sys.argv[3]), 300)
            print(desc); print(err[-4000:]); print(r)
            shutil.rmtree(tmp, ignore_errors=True)
            continue
        tmp = tempfile.mkdtemp(prefix='vf_')
        try:
            n = part.get('shards', NPROC)
            stall = part.get('stall', 30)
            shards = [Shard(exe, args, i, n, tmp, env, stall, None) for i in range(n)]
            while not all([s.poll() for s in shards]):
                time.sleep(0.05)
            raw = {}
            pi = dict(evaluations=0, states=0)
            pst = set()
            for s in shards:
                for r in s.results:
                    tot['evaluations'] += r['evaluations']
                    pi['evaluations'] += r['evaluations']
                    tot['transitions'] += r['transitions']
                    tot['skipped'] += r['skipped']
                    capped = capped or r['capped']
                    for k, v in r['classes'].items():
                        classes[k] = classes.get(k, 0) + v
                    for x in r['samples']:
                        if len(samples) < 60 and x not in samples:
                            samples.append(x)
                    notes.update(r['notes'])
                    for f in r['fails']:
                        raw.setdefault(f['key'], []).append(f)
                pst |= s.states
                for cur, kind, why in s.crashes:
                    raw.setdefault('%s@%d' % (kind, cur), []).append(dict(idx=cur, key=None, kind=kind, why=why, shard=s.i, desc='', msg=why))
            pi['states'] = len(pst)
            pi['cases'] = max([r['total'] for s in shards for r in s.results] or [0])
            tot['cases'] += pi['cases']
            states |= {hash((part['harness'], h)) for h in pst} if len(parts) > 1 else pst
            part_info[part['harness'] + '/' + part['variant'] + ' ' + ' '.join(part.get('args', []))] = pi
            # confirm in fresh processes
            done_keys = set()
            budget = 60
            kk0 = {k for k, _ in known(pid)}
            for k, fl in sorted(raw.items(), key=lambda kv: (slug(kv[0]) in kk0, min(f['idx'] for f in kv[1]))):
                if k in done_keys or budget <= 0:
                    continue
                f = min(fl, key=lambda x: x['idx'])
                if f['idx'] < 0:
                    raise SystemExit('harness %s died before its first case: %s' % (part['harness'], f['msg']))
                budget -= 1
                limit = max(90, 3 * stall)
                got, desc, how, err = confirm(exe, args, env, tmp, f['idx'], limit)
                if not got and f.get('kind') != 'hang':
                    # maybe it depends on what ran before in the same process: replay the shard up to this case
                    sh = f.get('shard', f['idx'] % n)
                    got = replay_prefix(exe, args, env, tmp, f, sh, n, limit * 3)
                    desc = desc or f['desc']
                if not got:
                    notes['unreproduced ' + k[:80]] = f['desc'][:200] + ' ' + f['msg'][:200]
                    continue
                for key, msg in got:
                    kk = slug(key)
                    if kk not in fails:
                        fails[kk] = dict(key=kk, msg=msg, desc=desc or f['desc'], idx=f['idx'], part=part, args=args)
                    done_keys.add(key)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) > 3 and sys.argv[2] == '--case':
        return 0
    kn = known(pid)
    kkeys = {k for k, _ in kn}
    viol = []
    for key, f in fails.items():
        if key in kkeys:
            f['known'] = True
        else:
            viol.append(f)
    for k, w in kn:
        if k in fails:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, w, k))
        else:
            print('NOTE: listed finding not observed on this tree: %s' % k)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(viol[:25]):
        rp = os.path.join(rdir, '%s-%d.txt' % (pid, i))
        with open(rp, 'w') as o:
            o.write('property %s\nkey      %s\ncase     %s\nobserved %s\nharness  %s (%s)\nreplay   cd /verif && VERIF_TIER=%s python3 tools/run.py %s --case %d\n' % (
                pid, f['key'], f['desc'], f['msg'], f['part']['harness'], f['part']['variant'], tier, pid, f['idx']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('   %s :: %s' % (f['desc'][:400], f['msg'][:300]))
    cov = {'evaluations': tot['evaluations'], 'distinct_nontrivial': len(states), 'rule': c['rule'],
           'samples': samples[:30] or ['none'], 'exhaustive': not capped, 'cases_in_space': tot['cases'],
           'classes': classes, 'skipped_outside_domain': tot['skipped'], 'parts': part_info,
           'build_s': round(build_s, 1)}
    if c['level'] == 'model_checking':
        cov['states'] = len(states)
        cov['transitions'] = tot['transitions']
        cov['traces_validated_against_impl'] = tot['evaluations']
    if notes:
        cov['notes'] = notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': c['level'], 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fn = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(fn + '.tmp', 'w') as o:
        json.dump(ev, o, indent=1)
    os.replace(fn + '.tmp', fn)
    print('%s %s: evaluations=%d states=%d transitions=%d cases=%d wall=%.1fs (build %.1fs) violations=%d known=%d' % (
        pid, tier, tot['evaluations'], len(states), tot['transitions'], tot['cases'], time.time() - t0, build_s, len(viol),
        len([1 for f in fails.values() if f.get('known')])))
    if tot['evaluations'] == 0:
        raise SystemExit('nothing was explored')
    return 1 if viol else 0


def replay_prefix(exe, args, env, tmp, f, shard, n, limit):
    out = os.path.join(tmp, 'prefix.json')
    shmf = os.path.join(tmp, 'prefix.shm')
    for x in (out, shmf):
        if os.path.exists(x):
            os.unlink(x)
    cmd = [exe, '--shard', str(shard), '--nshards', str(n), '--upto', str(f['idx']), '--out', out, '--shm', shmf] + list(args)
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp, timeout=limit)
    except subprocess.TimeoutExpired:
        return []
    if p.returncode == 0 and os.path.exists(out):
        j = json.load(open(out))
        return [(x['key'], x['msg'] + ' (after the preceding cases of shard %d/%d)' % (shard, n)) for x in j['fails'] if x['idx'] == f['idx']]
    return [('crash-after-prefix:' + f.get('desc', '') + str(f['idx']), 'the process dies at case %d after the preceding cases' % f['idx'])]


if __name__ == '__main__':
    sys.exit(main())
