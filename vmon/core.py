"""Runner for the runtime monitors.

A property module (vmon.props.<id>) defines

    TITLE      one line
    RULE       how cases are made and what makes one non-trivial
    REQUIRED   {event kind: minimum count} the monitors must have observed
    plan(tier, seed) -> list of sessions, a session being a list of (kind, args)
    KINDS      {kind: function(ctx, *args)}

Every session runs in a freshly forked process that has only *imported* the
code under test, so all of its caches are cold at the start of the session and
warm up exactly as the session's own history dictates.  The functions drive the
real code and report what they see through a Ctx; a monitor that sees the
property broken raises Violation.  Verdicts are three-valued: exit 0 (held on
everything observed), exit 1 (VIOLATION), anything else is inconclusive.
"""
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
import hashlib
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = ['cached', 'polynomials', 'vectors', 'partitions', 'tableaux', 'words', 'symmetric',
           'permutations', 'insertion', 'crystals', 'vst', 'boxes', 'operators', 'dualops', 'utils']

DISTINCT_CAP = 200000


class Violation(Exception):
    def __init__(self, what, **witness):
        super().__init__(what)
        self.what = what
        self.witness = witness


class NoProgress(BaseException):
    pass


def short(x, limit=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:
        s = '<unprintable %s: %s>' % (type(x).__name__, e)
    return s if len(s) <= limit else s[:limit] + '...[%d chars]' % len(s)


class Ctx:
    def __init__(self, session_name, known):
        self.session = session_name
        self.known = known           # {key: entry} findings listed for this property
        self.events = Counter()
        self.distinct = set()
        self.samples = []
        self.known_hit = {}
        self.trace = []              # last few observed events: the witness history

    def ev(self, kind, key=None, trivial=False):
        """Record one observed event; key identifies the distinct state observed."""
        self.events[kind] += 1
        if not trivial and len(self.distinct) < DISTINCT_CAP:
            h = hashlib.blake2b(('%s|%r' % (kind, key)).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3:
                    self.samples.append('%s %s' % (kind, short(key, 200)))
        self.trace.append((kind, key))
        if len(self.trace) > 12:
            del self.trace[0]

    def check(self, ok, what, **witness):
        if not ok:
            raise Violation(what, **witness)

    def equal(self, got, want, what, **witness):
        if got != want:
            raise Violation(what, got=short(got), want=short(want), **witness)

    def finding(self, key, what, **witness):
        """A defect with a recognised signature: a listed known finding, or a violation."""
        if key in self.known:
            self.known_hit.setdefault(key, what)
        else:
            raise Violation(what, finding_key=key, **witness)


def load_known(prop):
    ans = {}
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s key=' % prop):
                rest = line.split('key=', 1)[1]
                key, _, text = rest.partition(' ')
                ans[key] = text
    return ans


def import_code():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    for m in MODULES:
        mod = importlib.import_module(m)
        f = os.path.realpath(mod.__file__)
        assert f.startswith(os.path.realpath(REPO) + os.sep), 'module %s was loaded from %s' % (m, f)


def _on_vtalrm(signum, frame):
    raise NoProgress()


def run_session(prop, name, steps, known, cpu_limit):
    """In the child: run the steps, return a result dictionary."""
    ctx = Ctx(name, known)
    violation = None
    done = 0
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
    t0 = time.process_time()
    step = None
    try:
        for step in steps:
            kind, args = step[0], step[1:]
            prop.KINDS[kind](ctx, *args)
            done += 1
    except Violation as v:
        violation = {'what': v.what, 'witness': {k: short(x, 2000) for k, x in v.witness.items()}}
    except NoProgress:
        violation = {'what': 'no progress: the step did not finish within %d CPU-seconds' % cpu_limit,
                     'witness': {'stack': short(''.join(traceback.format_stack(limit=12)), 3000)}}
    except MemoryError:
        violation = {'what': 'the step exhausted its memory allowance', 'witness': {}}
    except Exception as e:
        violation = {'what': 'unexpected %s: %s' % (type(e).__name__, short(str(e))),
                     'witness': {'traceback': short(traceback.format_exc(limit=-8), 3000)}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if violation:
        violation['session'] = name
        violation['step'] = list(step) if step else None
        violation['step_index'] = done
        violation['trace'] = [short(t, 300) for t in ctx.trace]
    return {'events': dict(ctx.events), 'distinct': ctx.distinct, 'samples': ctx.samples, 'known': ctx.known_hit,
            'violation': violation, 'done': done, 'cpu': time.process_time() - t0}


def watch_lines():
    """Record which lines of the code under test run (VERIF_COVER=<directory>)."""
    seen = set()
    mon, root = sys.monitoring, os.path.realpath(REPO) + os.sep
    mon.use_tool_id(3, 'vmon')

    def line(code, n):
        if os.path.realpath(code.co_filename).startswith(root):
            seen.add((os.path.basename(code.co_filename), n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return seen


def _child(prop, name, steps, known, cpu_limit, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_limit * 2 + 60, cpu_limit * 2 + 90))
        mem = int(os.environ.get('VERIF_MEM_MB', '3500')) << 20
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        sys.stdin = open(os.devnull)
        sys.stdout = open(os.devnull, 'w')
        random.seed(0)
        cover = os.environ.get('VERIF_COVER')
        seen = watch_lines() if cover else None
        res = run_session(prop, name, steps, known, cpu_limit)
        if cover:
            with open(os.path.join(cover, '%s.%d' % (name, os.getpid())), 'wb') as f:
                pickle.dump(seen, f)
        with os.fdopen(wfd, 'wb') as f:
            pickle.dump(res, f)
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(3)


def main(argv):
    pid = argv[0]
    replay = None
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if replay:
        tier, seed = replay.get('tier', tier), replay.get('seed', seed)
    t_start = time.time()
    import_code()
    prop = importlib.import_module('vmon.props.' + pid)
    known = load_known(pid)
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    cpu_limit = getattr(prop, 'CPU_LIMIT', 150) * (1 if tier == 'quick' else 4)
    wall_limit = float(os.environ.get('VERIF_WALL', '820' if tier == 'quick' else '7200'))

    if replay:
        sessions = [tuple_session(replay['steps'])]
    else:
        rounds = getattr(prop, 'ROUNDS', (8, 30))[0 if tier == 'quick' else 1]
        rounds = int(os.environ.get('VERIF_ROUNDS') or rounds)
        sessions = [tuple_session(s) for k in range(rounds) for s in prop.plan(tier, seed + 1000 * k)]
    only = os.environ.get('VERIF_SESSION')
    queue = [('s%04d' % i, s) for i, s in enumerate(sessions)]
    if only:
        queue = [q for q in queue if q[0] == only]
    total = len(queue)
    queue.reverse()

    events, samples, known_hit = Counter(), [], {}
    distinct = set()
    violations, errors = [], []
    running = {}
    steps_done = 0
    cpu_total = cpu_max = 0.0
    timed_out = False
    stop = False
    slow = []
    while queue or running:
        while queue and len(running) < workers and not stop:
            name, steps = queue.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            cpid = os.fork()
            if cpid == 0:
                os.close(rfd)
                for other in running:
                    os.close(other)
                _child(prop, name, steps, known, cpu_limit, wfd)
            os.close(wfd)
            running[rfd] = [cpid, name, steps, bytearray()]
        if stop and not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd][3].extend(chunk)
                continue
            cpid, name, steps, buf = running.pop(fd)
            os.close(fd)
            _, status = os.waitpid(cpid, 0)
            res = None
            if status == 0 and buf:
                res = pickle.loads(bytes(buf))
            if res is None:
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU,):
                    violations.append((steps, {'what': 'no progress: CPU limit exceeded', 'session': name,
                                               'witness': {}, 'trace': [], 'step': None}))
                elif not stop:
                    errors.append('session %s ended with status %d' % (name, status))
                stop = True
            else:
                events.update(res['events'])
                if len(distinct) < 2000000:
                    distinct |= res['distinct']
                samples.extend(res['samples'])
                known_hit.update(res['known'])
                steps_done += res['done']
                cpu_total += res['cpu']
                cpu_max = max(cpu_max, res['cpu'])
                slow.append((res['cpu'], name, short(steps[0], 100)))
                if res['violation']:
                    violations.append((steps, res['violation']))
                    stop = True
            if stop:
                queue.clear()
                for other in list(running):
                    try:
                        os.kill(running[other][0], signal.SIGKILL)
                    except OSError:
                        pass
        if time.time() - t_start > wall_limit:
            timed_out = True
            stop = True
            queue.clear()
            for other in list(running):
                try:
                    os.kill(running[other][0], signal.SIGKILL)
                except OSError:
                    pass
    wall = time.time() - t_start
    if os.environ.get('VERIF_SLOW'):
        for row in sorted(slow, reverse=True)[:12]:
            print('slow %.2f %s %s' % row)

    rng = random.Random(seed)
    rng.shuffle(samples)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(events.values()),
            'distinct_nontrivial': len(distinct),
            'rule': prop.RULE,
            'samples': samples[:10],
            'events': dict(sorted(events.items())),
            'sessions': total,
            'steps': steps_done,
            'cpu_s': round(cpu_total, 1),
            'max_session_cpu_s': round(cpu_max, 1),
            'known_findings_seen': sorted(known_hit),
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if not replay and not only and not os.environ.get('VERIF_NOEVIDENCE'):
        evdir = os.path.join(ROOT, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        tmp = os.path.join(evdir, '.%s.%d' % (pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
        os.replace(tmp, os.path.join(evdir, pid + '.json'))

    for key in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, key, known_hit[key]))
    if violations:
        steps, v = violations[0]
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (pid, tier, seed))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'steps': steps, 'violation': v}, f, indent=1,
                      default=str)
        print('property %s violated: %s' % (pid, v['what']))
        print('  in step %s of session %s' % (short(v.get('step'), 400), v.get('session')))
        for k, x in v.get('witness', {}).items():
            print('  %s: %s' % (k, x))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors or timed_out:
        print('INCONCLUSIVE property=%s %s' % (pid, '; '.join(errors) or 'wall-clock watchdog fired'))
        return 2
    if not replay and not only:
        for kind, least in getattr(prop, 'REQUIRED', {}).items():
            if events[kind] < least:
                print('INCONCLUSIVE property=%s monitor %r observed %d events, needs %d' % (
                    pid, kind, events[kind], least))
                return 2
    print('held property=%s tier=%s seed=%d events=%d distinct=%d sessions=%d wall=%.1fs cpu=%.1fs (max %.1fs)' % (
        pid, tier, seed, sum(events.values()), len(distinct), total, wall, cpu_total, cpu_max))
    return 0


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def tuple_session(s):
    return [tup(x) for x in s]


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
