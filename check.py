#!/usr/bin/env python3
"""Decides one property: check.py --property C01 (VERIF_TIER=quick|thorough, VERIF_SEED=n).

1. TLC explores all behaviours of the specification on the alphabets of the property (spec/NrbfMC.tla), checks its
   invariants, and every complete message it finds is replayed into nrbf.
2. nrbf is run on the property's corpus, and TLC checks that every recorded call is a behaviour of the specification
   (spec/NrbfTrace.tla, spec/NrbfSession.tla).

Exit status: 0 the property held on everything explored, 1 it did not (a VIOLATION line says where), 2 the check failed.
"""
import argparse
import collections
import concurrent.futures
import itertools
import json
import os
import random
import re
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'driver'))
import core  # noqa: E402
import corpora  # noqa: E402
import known  # noqa: E402
import scales  # noqa: E402
from plan import FAM, PLAN  # noqa: E402

INVARIANTS = ('FramesOk StackDistinct InnermostOpen IdsOk LibsOk AvailableOk AcceptedWhole AcceptedResolved Refines PrefixesRejected '
              'ExtensionRejected Terminates')
CHUNK = 9000


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.rng = random.Random(seed * 1000 + int(prop[1:]))
        self.work = os.path.join(core.OUT, prop)
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = self.messages = 0
        self.verdicts = collections.Counter()
        self.reasons = collections.Counter()
        self.actions = collections.Counter()
        self.families = {}
        self.samples = []
        self.violations = []
        self.knowns = []
        self.stopped = False

    # -- one mismatch
    def violate(self, b, mode, got, expected, why, how):
        if self.plan.get('crash_only') and got.get('r') in ('ok', 'err'):
            self.verdicts['other property'] += 1
            return
        self.violations.append(dict(property=self.prop, input=b.hex(), mode=mode, nrbf=got, specification=expected, why=why, found_by=how))

    def sample(self, b, mode, o, how):
        if len(self.samples) < 6 and len(b) < 400:
            self.samples.append(dict(input=b.hex(), call=mode, outcome=o.get('r'), found_by=how))

    def run(self, cases, name):
        res = core.run_cases(self.binary, cases, self.work, name)
        return res

    # -- TLC generates, nrbf replays
    def family(self, fam):
        depth = FAM[fam][1 if self.tier == 'thorough' else 0]
        grace = 1 if self.tier == 'thorough' and fam in ('types', 'nulls', 'libs', 'ids', 'members') else 0
        cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Family = "%s" MaxRecords = %d Grace = %d\nINVARIANTS %s\n' % (fam, depth, grace, INVARIANTS)
        rc, out, err = core.tlc('NrbfMC', cfg, self.work, timeout=3000 if self.tier == 'thorough' else 400)
        if rc != 0:
            raise core.ToolError('TLC on NrbfMC family %s: exit %d\n%s' % (fam, rc, '\n'.join(x for x in out.splitlines() if not x.startswith('"@'))[-3000:]))
        gen, dis = core.stats(out)
        self.replay(fam, self.messages_in(out), gen, dis, dict(records=depth, grace=grace))

    @staticmethod
    def messages_in(out):
        ms = {}
        for line in out.splitlines():
            if line.startswith('"@M '):
                m = json.loads(json.loads(line)[3:])
                ms[bytes(m['b'])] = m
        return ms

    def walks(self):
        """Long messages: random walks of the specification (TLC's simulation), several processes with a seed of their own."""
        lengths = (3, 5, 7, 9, 12, 15, 19, 24)
        num = 1500 if self.tier == 'thorough' else 260

        def one(n):
            cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Family = "walk" MaxRecords = %d Grace = 2\nINVARIANTS %s\n' % (n, INVARIANTS)
            seed = (self.seed * 100 + int(self.prop[1:])) * 100 + n
            rc, out, err = core.tlc('NrbfMC', cfg, os.path.join(self.work, 'walk%d' % n), workers=1, timeout=3000 if self.tier == 'thorough' else 400, heap='2g',
                                    args=('-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(seed)))
            if rc != 0:
                raise core.ToolError('TLC on walks of NrbfMC: exit %d\n%s' % (rc, '\n'.join(x for x in out.splitlines() if not x.startswith('"@'))[-3000:]))
            m = re.search(r'The number of states generated: (\d+)', out)
            return self.messages_in(out), int(m.group(1)) if m else 0
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, lengths))
        ms = {}
        for x, _ in res:
            ms.update(x)
        n = sum(x for _, x in res)
        self.replay('walk', ms, n, n, dict(records=list(lengths), grace=2, walks=num * len(lengths)))

    def replay(self, fam, ms, gen, dis, bounds):
        self.states += dis
        self.transitions += gen
        cnt = collections.Counter()
        cs = list(ms)
        res = self.run([('parse', c) for c in cs], 'mc')
        for c, o in zip(cs, res):
            m = ms[c]
            if o['r'] == 'not run':
                continue
            r = {k: v for k, v in o.items() if k in ('r', 'v')}
            self.traces += 1
            if o['r'] not in ('ok', 'err'):
                v = 'CRASH'
            elif m['open']:
                v = 'loose'
            elif r == m['r']:
                v = 'match-' + o['r'] if not m['i'] or m['i'][0] == m['r'] else 'known'
            elif m['i'] and r == m['i'][0]:
                v = 'ideal'
            else:
                v = 'MISMATCH'
            cnt[v] += 1
            self.reasons[m['w'] or 'accepted'] += 1
            if v in ('MISMATCH', 'CRASH'):
                self.violate(c, 'parse', o, m['r'], m['w'], 'NrbfMC ' + fam)
            elif o['r'] == 'ok' and len(c) > 40 and self.rng.random() < .01:
                self.sample(c, 'parse', o, 'NrbfMC ' + fam)
        self.families[fam] = dict(bounds, states=dis, messages=len(ms), outcomes=dict(cnt))
        self.verdicts.update(cnt)
        self.messages += len(ms)
        if 'targets' in self.plan:
            ok = [c for c in cs if ms[c]['r']['r'] == 'ok' and not ms[c]['open']]
            n = 2500 if self.tier == 'quick' else 30000
            ts = self.plan['targets']
            items = [(c, ts if len(ok) * len(ts) < 30000 else self.rng.sample(ts, min(len(ts), 9))) for c in (self.rng.sample(ok, n) if len(ok) > n else ok)]
            self.judge(items, 'NrbfMC %s x targets' % fam)
        if self.plan.get('whys'):
            ok = [c for c in cs if not ms[c]['open']]
            ok = self.rng.sample(ok, 3000) if len(ok) > 3000 else ok
            self.whys([(c, ['why_' + t for t in self.rng.sample(self.plan['whys'], 8)]) for c in ok], 'NrbfMC %s errors of targets' % fam, 3000)
        if self.plan.get('errors'):
            self.errors([c for c, o in zip(cs, res) if o['r'] == 'err'], 'NrbfMC %s errors' % fam, 3000)
        if self.prop == 'C02':
            ok = [c for c in cs if ms[c]['r']['r'] == 'ok' and not ms[c]['open']]
            n = 700 if self.tier == 'quick' else 10000
            self.judge([(c, ['prefixes', 'extensions']) for c in (self.rng.sample(ok, n) if len(ok) > n else ok)], 'NrbfMC %s cut and extended' % fam)

    # -- nrbf runs, TLC validates
    def judge(self, items, how):
        merged = {}
        for b, modes in items:
            q = merged.setdefault(b, [])
            q += [m for m in modes if m not in q]
        items = list(merged.items())
        for k in range(0, len(items), CHUNK):
            self.judge_chunk(items[k:k + CHUNK], how)

    def judge_chunk(self, items, how):
        cases = [(m, b) for b, modes in items for m in modes]
        res = iter(self.run(cases, 'corpus'))
        rows = []
        for b, modes in items:
            q = [(m, next(res)) for m in modes]
            q = [(m, o) for m, o in q if o['r'] != 'not run']
            if q:
                rows.append(dict(bytes=b, q=q))
        self.validate(rows, how)

    def validate(self, rows, how):
        if not rows:
            return
        # A crash is a violation whatever the specification says of the message, unless it is known to be huge.
        verdicts, why, explain, (gen, dis), acts = core.validate(rows, self.work, timeout=3000 if self.tier == 'thorough' else 600)
        self.states += dis
        self.transitions += gen
        self.actions.update(acts)
        for i, r in enumerate(rows):
            self.messages += 1
            self.reasons[why[i] or 'accepted'] += 1
            for j, (m, o) in enumerate(r['q']):
                v = verdicts[i][j]
                self.verdicts[v] += 1
                self.traces += 1
                if v in ('MISMATCH', 'CRASH'):
                    self.violate(r['bytes'], m, o, explain[(i, j)]['expected'], explain[(i, j)]['why'], how)
                elif self.rng.random() < .002:
                    self.sample(r['bytes'], m, o, how)

    def errors(self, bs, how, most):
        """C24: what the errors say, of messages of all the texts there are."""
        texts = collections.defaultdict(list)
        res = self.run([('parse', b) for b in bs], 'texts')
        for b, o in zip(bs, res):
            if o['r'] == 'err':
                texts[o['e']].append(b)
        n = most * (1 if self.tier == 'quick' else 10) // max(1, len(texts))
        self.texts = getattr(self, 'texts', collections.Counter())
        kept = []
        for e, x in sorted(texts.items()):
            x = self.rng.sample(x, n) if len(x) > n else x
            self.texts[e] += len(x)
            kept += x
        self.judge([(b, ['error']) for b in kept], how)

    def whys(self, items, how, most):
        """C25: what the errors of from_slice say, of all the kinds of claims and targets there are."""
        kinds = collections.defaultdict(list)
        cases = [(m, b) for b, modes in items for m in modes]
        for (m, b), o in zip(cases, self.run(cases, 'texts')):
            if o['r'] == 'err':
                c = o['v']
                kinds[c['k'] + ' ' + c.get('in', '') + c.get('u', {}).get('k', '')].append((b, m))
            elif o['r'] != 'ok':
                kinds[o['r']].append((b, m))
        n = most * (1 if self.tier == 'quick' else 10) // max(1, len(kinds))
        self.texts = getattr(self, 'texts', collections.Counter())
        kept = []
        for k, x in sorted(kinds.items()):
            by = collections.defaultdict(list)
            for b, m in x:
                by[m].append((b, m))
            x = [c for t in sorted(by) for c in self.rng.sample(by[t], min(len(by[t]), max(4, n // len(by))))]
            self.texts[k.strip()] += len(x)
            kept += x
        self.judge([(b, [m]) for b, m in kept], how)

    def bulk(self, tier):
        """C01: all corpora, and what is near them. Every outcome but a panic, a crash and a hang is a behaviour here, so only these are judged."""
        for part in itertools.batched(corpora.bulk(self.rng, tier), 60000):
            cases = [(m, b) for b, modes in part for m in modes]
            bad = []
            for (m, b), o in zip(cases, self.run(cases, 'bulk')):
                if o['r'] in ('ok', 'err'):
                    self.verdicts['returned'] += 1
                elif o['r'] != 'not run':
                    bad.append((b, [m]))
            self.judge(bad[:2000], 'all corpora')
            if self.violations:
                break

    def session(self, items):
        """C22: the calls again, on several threads, in other orders, at other addresses, and without the serde feature."""
        os.environ['NRBF_DEBUG_DECIMALS'] = '1'
        cases = [('parse', b) for b in dict.fromkeys(b for b, _ in items)]
        plain = self.run(cases, 'plain')
        # Messages that the reader cannot afford are left out.
        keep = [k for k, o in enumerate(plain) if o['r'] in ('ok', 'err')]
        bad = [k for k, o in enumerate(plain) if o['r'] in ('panic', 'crash', 'timeout')]
        if bad:
            self.verdicts['left out'] += len(bad)
        cases = [cases[k] for k in keep]
        ref = [json.dumps({x: y for x, y in plain[k].items() if x in ('r', 'v', 'e')}, sort_keys=True) for k in keep]
        inp = os.path.join(self.work, 'session.in')
        with open(inp, 'w') as f:
            for m, b in cases:
                f.write('%s %s\n' % (m, b.hex()))
        bare = core.build(False)
        numbers = {}
        num = lambda s: numbers.setdefault(s, len(numbers) + 1)
        threads, rounds = (4, 2) if self.tier == 'quick' else (8, 4)
        for name, binary in (('serde', self.binary), ('no serde', bare)):
            out = os.path.join(self.work, 'session.out')
            if os.path.exists(out):
                os.remove(out)
            r = subprocess.run([binary, inp, out, 'session', str(threads), str(rounds)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600,
                               preexec_fn=core._limits(8 << 30))
            if r.returncode != 0:
                self.violate(b'', 'session', dict(r='crash', e='exit status %d' % r.returncode), None, 'a session of calls that all return on their own', 'NrbfSession ' + name)
                continue
            events = []
            texts = []
            with open(out) as f:
                for line in f:
                    t, i, o = line.split(' ', 2)
                    o = json.loads(o)
                    s = json.dumps({x: y for x, y in o.items() if x in ('r', 'v', 'e')}, sort_keys=True)
                    events.append((int(t) + 1, int(i) + 1, num(s)))
                    texts.append(o)
            os.remove(out)
            path = os.path.join(self.work, 'session.ndjson')
            with open(path, 'w') as f:
                f.write(json.dumps(dict(threads=threads, calls=len(cases) * rounds, reference=[num(s) for s in ref])) + '\n')
                for e in events:
                    f.write(json.dumps(e) + '\n')
            rc, o, err = core.tlc('NrbfSession', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS MadeOk Complete\n', self.work, dict(NRBF_SESSION=path), workers=1)
            os.remove(path)
            done = [json.loads(json.loads(x)[3:]) for x in o.splitlines() if x.startswith('"@C ')]
            if rc != 0 or not done or sum(done[0]['made']) != len(events) or len(events) != len(cases) * threads * rounds:
                raise core.ToolError('NrbfSession: exit %d\n%s' % (rc, o[-2000:]))
            gen, dis = core.stats(o)
            self.states += dis
            self.transitions += gen
            self.traces += 1
            self.verdicts['session calls ' + name] += len(events)
            for x in o.splitlines():
                if x.startswith('"@D '):
                    k = json.loads(json.loads(x)[3:])['n'] - 1
                    i = events[k][1] - 1
                    self.violate(cases[i][1], 'parse', texts[k], json.loads(ref[i]), 'thread %d gave another outcome than a single call' % events[k][0], 'NrbfSession ' + name)
        del os.environ['NRBF_DEBUG_DECIMALS']

    def efforts(self):
        """C23: messages that grow in one dimension."""
        series = []
        for name, (_, f, _, most) in scales.SCALES.items():
            if most:
                ns = [4, 8, 12] + sorted({k * most // 4 for k in (1, 2, 3, 4)} - set(range(13)))
                series.append((name, ns, [f(n) for n in ns]))
        small = [(b, ['parse', 'cost']) for _, _, bs in series for b in bs[:3]]
        self.judge(small, 'small members of the series')
        values = {}
        for mode in ('cost', 'cost_ignored'):
            rows, kept, slow = [], [], 0
            for name, ns, bs in series:
                rs = []
                for n, b in zip(ns, bs):
                    # What else the machine does can only add to the time.
                    o = self.run([(mode, b)], 'effort')[0]
                    for again in (1, 2):
                        if o['r'] in ('ok', 'err') and o['v'][1] > 100000:
                            p = self.run([(mode, b)], 'effort')[0]
                            if p['r'] == o['r']:
                                o['v'][1] = min(o['v'][1], p['v'][1])
                    if o['r'] not in ('ok', 'err'):
                        self.violate(b, mode, o, None, '%s of size %d' % (name, n), 'NrbfEffort')
                        slow += 1
                        break
                    # from_slice yields nothing here; parse does.
                    o['v'][0] = values.setdefault((name, n), o['v'][0])
                    rs.append(o)
                    if o['v'][1] > 3000000:
                        # Larger ones tell nothing more.
                        slow += 1
                        break
                if len(rs) >= 3:
                    rows.append(dict(name=name, pts=[[n, len(b), o['r']] + o['v'] + [scales.SHAPES[name](n) if name in scales.SHAPES else []] for n, b, o in zip(ns, bs, rs)]))
                    kept.append((name, ns, bs, rs))
                if slow > 4:
                    break
            path = os.path.join(self.work, 'series.ndjson')
            with open(path, 'w') as f:
                f.write(''.join(json.dumps(r) + '\n' for r in rows))
            rc, out, err = core.tlc('NrbfEffort', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Done\n', self.work, dict(NRBF_SERIES=path), workers=1)
            os.remove(path)
            if rc != 0 or sum(x.startswith('"@C ') for x in out.splitlines()) != len(rows):
                raise core.ToolError('NrbfEffort: exit %d\n%s' % (rc, out[-2000:]))
            gen, dis = core.stats(out)
            self.states += dis
            self.transitions += gen
            self.traces += len(rows)
            self.verdicts['series ' + mode] += len(rows)
            self.efforts_of = getattr(self, 'efforts_of', {})
            self.efforts_of[mode] = {r['name']: r['pts'][-1] for r in rows}
            for x in out.splitlines():
                if x.startswith('"@D '):
                    d = json.loads(json.loads(x)[3:])
                    name, ns, bs, rs = kept[d['i'] - 1]
                    k = d['k'] - 1
                    self.violate(bs[k], mode, rs[k], dict(values=d['expected']), '%s of size %d takes too much, or has another outcome than the small ones' % (name, ns[k]), 'NrbfEffort')

    def findings(self):
        for key, b, expected, what in known.load(self.prop):
            o = core.run_cases(self.binary, [('parse', b)], self.work, 'known', stall=60)[0]
            got = 'crash' if o['r'] in ('crash', 'timeout', 'panic') else o['r']
            line = 'KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, what)
            if got == expected:
                print(line)
                self.knowns.append(line)
            else:
                print('note: known finding %s of %s gives %s instead of %s' % (key, self.prop, got, expected))

    def go(self):
        self.binary = core.build(True)
        self.findings()
        tier = 1 if self.tier == 'quick' else 6
        for f in self.plan['fams']:
            self.family(f)
        if self.plan.get('walk'):
            self.walks()
        items = self.plan['corpus'](self.rng, tier)
        items += [] if self.plan.get('whys') else scales.sweep(self.prop, tier, self.plan.get('sweep', ('parse',)), self.plan.get('cap', 10**6)) + scales.magnitudes(self.prop, self.rng, tier)
        if self.plan.get('whys'):
            self.whys(items, 'corpus', 24000)
        elif self.plan.get('errors'):
            self.errors([b for b, _ in items], 'corpus', 30000)
        else:
            self.judge(items, 'corpus')
        if self.plan.get('others'):
            self.judge([(b, ['parse']) for b in corpora.others(self.prop, self.rng, self.plan['others'] * tier)], "the other properties' corpora")
        if self.plan.get('bulk'):
            self.bulk(tier)
        if self.plan.get('session'):
            self.session(items)
        if self.plan.get('efforts'):
            self.efforts()

    def evidence(self, wall):
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, messages=self.messages,
                                samples=self.samples, outcomes=dict(self.verdicts), why_rejected=dict(self.reasons.most_common()),
                                actions_taken=dict(self.actions), **(dict(error_texts=dict(self.texts)) if hasattr(self, 'texts') else {}), **(dict(size_bytes_outcome_values_us_kib=self.efforts_of) if hasattr(self, 'efforts_of') else {}), exhaustive_families=self.families, known_findings=self.knowns),
                  assumptions=['TLC and the CommunityModules evaluate the specification correctly.',
                               'The projection of nrbf\'s public values to JSON (harness/src/project.rs) loses nothing the property speaks of.',
                               'Inputs outside the families and the sampled corpus are not explored.'],
                  wall_s=round(wall, 1), violations=len(self.violations))
        with open(os.path.join(core.VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Check(a.property, 'thorough' if tier == 'thorough' else 'quick', seed)
    t = time.time()
    c.go()
    c.evidence(time.time() - t)
    if c.violations:
        c.violations.sort(key=lambda v: (len(v['input']), v['input']))
        path = os.path.join(core.OUT, 'replay-%s.json' % a.property)
        with open(path, 'w') as f:
            json.dump(c.violations[:50], f, indent=1)
        v = c.violations[0]
        print('%s: %d calls differ from the specification; the shortest: %s of %s' % (a.property, len(c.violations), v['mode'], v['input'][:400]))
        print('  nrbf:          %s' % json.dumps(v['nrbf'])[:600])
        print('  specification: %s %s' % (json.dumps(v['specification'])[:600], v['why']))
        print('VIOLATION property=%s replay=%s' % (a.property, path))
        return 1
    print('%s: held; %d states, %d calls of nrbf judged, %.0f s' % (a.property, c.states, c.traces, time.time() - t))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except core.ToolError as e:
        print('check failed: %s' % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
