"""Plumbing: building the harness, running the real code, running TLC."""
import collections
import fcntl
import json
import os
import re
import resource
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
OUT = os.environ.get('NRBF_OUT', os.path.join(VERIF, 'out'))
JAR = '/opt/veriftools/tla/tla2tools.jar'


class ToolError(Exception):
    """Something of ours, or of the toolchain, failed: neither a pass nor a violation."""


def env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e.pop('CARGO_TARGET_DIR', None)
    return e


def build(serde=True):
    """Builds the harness against /repo's working tree; returns the binary."""
    h = os.path.join(VERIF, 'harness')
    target = os.path.join(h, 'target' if serde else 'target-noserde')
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, '.verif-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo compares mtimes only; a replaced file may be older than the last build.
        fp = os.path.join(target, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('nrbf-'):
                    subprocess.run(['rm', '-rf', os.path.join(fp, d)], check=True)
        cmd = ['cargo', 'build', '--offline', '--locked', '--target-dir', target]
        if not serde:
            cmd.append('--no-default-features')
        r = subprocess.run(cmd, cwd=h, env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError('harness does not build:\n' + r.stderr[-4000:])
    return os.path.join(target, 'debug', 'nrbf-harness')


class Run(collections.namedtuple('Run', 'pre byte n suf')):
    """The bytes pre + byte * n + suf, for inputs that are too long to be held here."""

    def hex(self):
        return '%s:%d:%d:%s' % (self.pre.hex(), self.byte, self.n, self.suf.hex())


def bytes_of(hex):
    """The inverse of hex()."""
    if ':' not in hex:
        return bytes.fromhex(hex)
    a, byte, n, b = hex.split(':')
    return Run(bytes.fromhex(a), int(byte), int(n), bytes.fromhex(b))


def _limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_cases(binary, cases, workdir, name='cases', stall=20, mem=4 << 30, extra=()):
    """cases: [(mode, bytes)]. Returns the outcomes; a case that kills or hangs the process has r = crash/timeout."""
    os.makedirs(workdir, exist_ok=True)
    inp = os.path.join(workdir, name + '.in')
    out = os.path.join(workdir, name + '.out')
    with open(inp, 'w') as f:
        for mode, b in cases:
            f.write('%s %s\n' % (mode, b.hex()))
    if os.path.exists(out):
        os.remove(out)
    open(out, 'w').close()
    done = 0
    crashes = 0
    while done < len(cases):
        p = subprocess.Popen([binary, inp, out, str(done), *extra], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             preexec_fn=_limits(mem))
        last, t = -1, time.time()
        why = None
        while True:
            try:
                rc = p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(out)
                if size != last:
                    last, t = size, time.time()
                elif time.time() - t > stall:
                    p.kill()
                    rc = p.wait()
                    why = 'timeout'
                    break
        with open(out, 'rb') as f:
            data = f.read()
        if not data.endswith(b'\n') and data:
            data = data[:data.rfind(b'\n') + 1]
            open(out, 'wb').write(data)
        done = data.count(b'\n')
        if rc == 0 and done == len(cases):
            break
        if rc == 0:
            raise ToolError('harness stopped early without an error')
        if rc == 101 or rc == 2:
            raise ToolError('harness failed (%d) at case %d' % (rc, done))
        crashes += 20 if why else 1
        with open(out, 'a') as f:
            f.write(json.dumps(dict(r=why or 'crash', e='exit status %d' % rc)) + '\n')
            done += 1
            if crashes > 60:
                # What we know is enough.
                for _ in range(len(cases) - done):
                    f.write(json.dumps(dict(r='not run')) + '\n')
                break
    with open(out) as f:
        res = [json.loads(line) for line in f]
    if len(res) != len(cases):
        raise ToolError('harness wrote %d outcomes for %d cases' % (len(res), len(cases)))
    return res


def tlc(module, cfg, workdir, extra_env=None, workers=8, timeout=600, args=(), heap='6g'):
    """Runs TLC; returns its output. cfg is the text of the configuration."""
    os.makedirs(workdir, exist_ok=True)
    cfgfile = os.path.join(workdir, module + '.cfg')
    open(cfgfile, 'w').write(cfg)
    meta = os.path.join(workdir, 'states')
    tmp = os.path.join(workdir, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    e = env()
    if extra_env:
        e.update(extra_env)
    cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR + ':' + community(), 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfgfile, *args, os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        subprocess.run(['rm', '-rf', meta, tmp])
    return r.returncode, r.stdout, r.stderr


_community = None


def community():
    global _community
    if _community is None:
        d = os.path.dirname(JAR)
        jars = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.lower().startswith('community') and x.endswith('.jar')]
        _community = ':'.join(jars)
    return _community


STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


TRACE_CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'


def row_json(row):
    return json.dumps(row, separators=(',', ':'))


def segments(b):
    """Input bytes as the fields of a corpus row: a long run of one ASCII byte is kept as a run."""
    if isinstance(b, Run):
        return dict(b=list(b.pre), f=[b.byte, b.n], s=list(b.suf))
    if len(b) > 3000:
        best = (0, 0)
        i = 0
        while i < len(b):
            j = i
            while j < len(b) and b[j] == b[i]:
                j += 1
            if j - i > best[1] and b[i] < 128:
                best = (i, j - i)
            i = j
        i, n = best
        if n > 1000:
            # A margin stays outside the run, so that a text never begins or ends strictly inside it.
            return dict(b=list(b[:i + 1]), f=[b[i], n - 2], s=list(b[i + n - 1:]))
    return dict(b=list(b))


def shallow(o):
    """An outcome that TLC's JSON reader can read: of one that is too deep (it allows 255), only that it was accepted."""
    depth = most = 0
    for c in json.dumps(o.get('v')):
        if c in '[{':
            depth += 1
            most = max(most, depth)
        elif c in ']}':
            depth -= 1
    return dict(r=o['r'], deep=True) if most > 240 else o


def validate(rows, workdir, workers=8, timeout=600, name='corpus'):
    """rows: [dict(bytes=, q=[(mode, outcome)])].

    Returns (verdicts per row, why per row, explanations {(row, call): dict}, (generated, distinct), action counts)."""
    os.makedirs(workdir, exist_ok=True)
    corpus = os.path.join(workdir, name + '.ndjson')
    with open(corpus, 'w') as f:
        for r in rows:
            d = segments(r['bytes'])
            d['q'] = [[m, shallow({k: v for k, v in o.items() if k in ('r', 'v')})] for m, o in r['q']]
            f.write(row_json(d) + '\n')
    rc, out, err = tlc('NrbfTrace', TRACE_CFG, workdir, dict(NRBF_CORPUS=corpus), workers, timeout)
    verdicts, why, explain, acts = {}, {}, {}, {}
    for line in out.splitlines():
        if line.startswith('"@V '):
            d = json.loads(json.loads(line)[3:])
            verdicts[d['i'] - 1] = d['v']
            why[d['i'] - 1] = d['w']
            for a in d['a']:
                acts[a] = acts.get(a, 0) + 1
        elif line.startswith('"@X '):
            d = json.loads(json.loads(line)[3:])
            explain[(d['i'] - 1, d['j'] - 1)] = d
    if rc != 0 or len(verdicts) != len(rows):
        raise ToolError('TLC did not judge the whole corpus (exit %d, %d of %d)\n%s\n%s' % (
            rc, len(verdicts), len(rows), '\n'.join(x for x in out.splitlines() if not x.startswith('"@'))[-3000:], err[-500:]))
    os.remove(corpus)
    return [verdicts[i] for i in range(len(rows))], why, explain, stats(out), acts
