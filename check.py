#!/usr/bin/env python3
"""Decides one property: check.py <property> [quick|thorough]

1. builds the harness against /repo's working tree,
2. model checks the bounded models (spec/MC*.tla) with TLC and replays every
   behaviour they enumerate into the library,
3. records runs of the library and has TLC validate them against spec/Trace.tla.

Exit 0: held on everything explored; 1: VIOLATION line(s); 2: tool error.
"""
import json, os, re, shutil, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
VH = os.path.join(ROOT, 'harness', 'target', 'debug', 'vharness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

# Trace families per property: (family, sessions quick, sessions thorough, sessions per TLC run)
# 'all' stands for the size of a systematic family.
FAMS = {
    'C01': [('total', 500, 3000, 1000), ('chunk', 1500, 20000, 3000), ('frame', 2500, 12000, 4000), ('view', 1400, 6000, 500)],
    'C02': [('totalr', 600, 4000, 1000), ('image', 500, 6000, 1500), ('inflate', 500, 6000, 1500),
            ('pipe', 500, 6000, 2000)],
    'C03': [('frame', 9000, 60000, 5000), ('scaleraw', 40, 400, 80)],
    'C04': [('syschunk', 'all', 'all', 5000), ('chunk', 9000, 80000, 5000), ('hugechunk', 5, 10, 5), ('frame', 1500, 12000, 3000)],
    'C05': [('sysud', 'all', 'all', 5000), ('ud', 6000, 60000, 4000), ('hugeud', 5, 10, 5), ('udfile', 2500, 12000, 1200)],
    'C06': [('asm', 5000, 30000, 1500), ('scaledoc', 40, 400, 80)],
    'C07': [('asm', 5000, 30000, 1500), ('scaledoc', 24, 300, 80)],
    'C08': [('pal', 6000, 30000, 1500), ('pipeimg', 1000, 12000, 2000)],
    'C09': [('view', 2500, 12000, 500), ('scaleview', 40, 400, 40)],
    'C10': [('image', 2500, 30000, 1500), ('inflate', 2500, 30000, 1500), ('bigimage', 132, 1320, 132),
            ('pipeimg', 2500, 30000, 2500)],
    'C11': [('render', 5000, 40000, 2000), ('bigrender', 48, 400, 48), ('pipenormal', 2500, 30000, 2500)],
    'C12': [('select', 5000, 40000, 2000), ('pipe', 2500, 30000, 2500)],
    'C13': [('grid', 330, 330, 110), ('blend', 2500, 15000, 900), ('pipe', 1000, 12000, 2000)],
    'C14': [('hsl', 4000, 25000, 1500), ('pipehsl', 1500, 15000, 1500)],
    'C15': [('hist', 600, 3000, 250)],
    'C16': [('skip', 1500, 9000, 450)],
    'C17': [('alloc', 6000, 40000, 4000)],
}
# Bounded models per property: (module, cfg quick, cfg thorough)
MODELS = {
    'C01': [('MCFraming', 'MCFraming', 'MCFramingT')],
    'C03': [('MCFraming', 'MCFraming', 'MCFramingT'), ('MCScale', 'MCScaleR', 'MCScaleT')],
    'C04': [('MCChunk', 'MCChunk', 'MCChunkT')],
    'C05': [('MCProps', 'MCProps', 'MCPropsT')],
    'C06': [('MCAssemble', 'MCAssemble', 'MCAssembleT'), ('MCScale', 'MCScaleD', 'MCScaleT')],
    'C07': [('MCAssemble', 'MCAssemble', 'MCAssembleT'), ('MCScale', 'MCScaleD', 'MCScaleT')],
    'C08': [('MCPalette', 'MCPalette', 'MCPaletteT')],
    'C02': [('MCImage', 'MCImage', 'MCImageT'), ('MCRender', 'MCRender', 'MCRenderT')],
    'C09': [('MCLoader', 'MCLoader', 'MCLoaderT'), ('MCLoader', 'MCLoaderC', 'MCLoaderC'), ('MCScale', 'MCScaleV', 'MCScaleT')],
    'C10': [('MCImage', 'MCImage', 'MCImageT'), ('MCInflate', 'MCInflate', 'MCInflateT')],
    'C11': [('MCRender', 'MCRender', 'MCRenderT')],
    'C12': [('MCRender', 'MCSelect', 'MCSelectT')],
    'C13': [('MCBlend', 'MCBlend', 'MCBlendT')],
    'C14': [('MCBlend', 'MCHsl', 'MCHslT')],
    'C16': [('MCSkip', 'MCSkip1', 'MCSkip1'), ('MCSkip', 'MCSkip', 'MCSkipT')],
    'C17': [('MCMemory', 'MCMemory', 'MCMemoryT'), ('MCMemory', 'MCMemoryC', 'MCMemoryC')],
    'C15': [('MCHistory', 'MCHistory', 'MCHistoryT')],
}
SYSTEMATIC = {'syschunk', 'sysud'}


class ToolError(Exception):
    pass


def run(cmd, timeout, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, 'harness', 'target'))
    rc, out = run(['cargo', 'build', '--offline', '--quiet'], 1200, cwd=os.path.join(ROOT, 'harness'), env=env)
    if rc != 0:
        raise ToolError('harness does not build:\n' + out[-3000:])


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.out = os.path.join(ROOT, 'out', '%s-%d' % (prop, os.getpid()))
        os.makedirs(self.out, exist_ok=True)
        self.rep = os.path.join(ROOT, 'out', 'replay')
        os.makedirs(self.rep, exist_ok=True)
        self.states = self.trans = self.traces = self.replayed = 0
        self.cover = {}
        self.samples = []
        self.viol = []
        self.runs = []
        self.n = 0

    # -- reporting ---------------------------------------------------------
    def violation(self, what, data, raw=None):
        self.n += 1
        p = os.path.join(self.rep, '%s-%d-%d.json' % (self.prop, os.getpid(), self.n))
        d = {'property': self.prop, 'what': what}
        d.update(data)
        if raw is not None:
            q = p[:-5] + '.bin'
            with open(q, 'wb') as f:
                f.write(raw)
            d['input_file'] = q
        with open(p, 'w') as f:
            json.dump(d, f)
        self.viol.append((what, p, d))

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, timeout=3000, heap='12g', emit=None, beh=None):
        """Runs TLC; behaviours it prints go to the file `emit`"""
        meta = os.path.join(self.out, 'tlc-%s-%d' % (module, time.time_ns()))
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-cp', JARS, 'tlc2.TLC', '-workers', '8',
               '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            if emit is None:
                rc, out = run(cmd, timeout, cwd=SPEC, env=e)
            else:
                log = os.path.join(self.out, module + '.log')
                with open(log, 'wb') as f:
                    rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC, env=e).returncode
                rest = []
                with open(log, encoding='utf-8', errors='replace') as f, open(emit, 'w') as g:
                    for line in f:
                        if line.startswith('"{'):
                            line = json.loads(line)
                            if not beh or (len(beh) < 4 and len(line) < len(beh[-1])):
                                beh.append(line)
                            g.write(line + '\n')
                        else:
                            rest.append(line)
                os.remove(log)
                out = ''.join(rest)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC on %s exceeded %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dist
        self.trans += gen
        return rc, out, dist, gen, time.time() - t

    # -- implementation to specification ------------------------------------
    def validate(self, fam, path, lines):
        """TLC over the sessions in `lines`: set of (line index, event) rejected"""
        with open(path, 'w') as f:
            f.writelines(lines)
        rc, out, dist, gen, dt = self.tlc('Trace', 'Trace.cfg', {'TRACE': path, 'FOCUS': self.prop})
        acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        rej = {(int(a), int(b)) for a, b in re.findall(r'<<"REJ", (\d+), (\d+)>>', out)}
        done = acc | {a for a, _ in rej}
        if len(done) == len(lines) and not acc & {a for a, _ in rej}:
            return {(a - 1, b - 1, 'rejected') for a, b in rej}
        err = re.search(r'Error: (.*(?:\n.*){0,6})', out)
        if not err:
            raise ToolError('TLC gave no verdict on %s: %s' % (fam, out[-2000:]))
        # the specification is undefined for an observation: find it
        if 'Parsing or semantic' in out or len(lines) == 0:
            raise ToolError(out[-3000:])
        left = [i for i in range(len(lines)) if i + 1 not in done]
        res = {(a - 1, b - 1, 'rejected') for a, b in rej}
        if len(left) == 1:
            return res | {(left[0], 0, 'no behaviour of the specification is defined for it: ' + err.group(1)[:600])}
        if len(self.viol) + len(res) > 3:
            return res
        h = max(1, len(left) // 2)
        for part in (left[:h], left[h:]):
            if part and not res:
                res |= {(part[a], b, w) for a, b, w in self.validate(fam, path, [lines[i] for i in part])}
        return res

    def traces_of(self, fam, count, per):
        if count == 'all':
            rc, out = run([VH, 'sizes'], 60)
            count = json.loads(out)[fam]
        t0, total, events, stat = time.time(), 0, 0, {}
        start = 0
        while start < count:
            n = min(per, count - start)
            p = os.path.join(self.out, fam + '.ndjson')
            rc, out = run([VH, 'gen', fam, str(self.seed), str(start), str(n), p], 800)
            if rc != 0:
                self.crashed('recording %s' % fam, rc, p, {'fam': fam, 'seed': self.seed})
                return
            lines = [x for x in open(p) if '"ev":[]' not in x]
            for x in lines:
                for e in re.findall(r'"st":"(ok|err|panic)"', x):
                    stat[e] = stat.get(e, 0) + 1
            if lines and len(self.samples) < 6 and start == 0:
                x = min(lines[:40], key=len)
                self.samples.append({'family': fam, 'session': json.loads(x)} if len(x) < 4000 else {'family': fam, 'session_prefix': x[:1500]})
            rej = self.validate(fam, p, lines) if lines else set()
            for a, b, w in sorted(rej)[:3]:
                s = json.loads(lines[a])
                self.violation('trace %s' % w, {'family': fam, 'seed': self.seed, 'session': s['id'], 'event_index': b,
                                                'event': s['ev'][b], 'how': 'vharness gen %s %d %d 1 OUT' % (fam, self.seed, s['id'])})
            total += len(lines)
            events += sum(x.count('"e":"') for x in lines)
            os.remove(p)
            start += n
            if self.viol:
                break
        self.traces += total
        self.runs.append({'family': fam, 'sessions': total, 'events': events, 'outcomes': stat, 'wall_s': round(time.time() - t0, 1)})

    def crashed(self, what, rc, out, data):
        raw = None
        try:
            d = open(out + '.cur', 'rb').read()
            sid, n = struct.unpack('<QQ', d[:16])
            raw = d[16:16 + n]
            data['session'] = sid
        except Exception:
            pass
        why = {98: 'the library did not return for 90 s', 97: 'unexpected panic'}.get(rc, 'the process died (exit %d)' % rc)
        self.violation('%s: %s' % (what, why), data, raw)

    # -- specification to implementation ------------------------------------
    def model(self, module, cfg):
        t0 = time.time()
        beh = []
        p = os.path.join(self.out, module + '.beh')
        rc, out, dist, gen, dt = self.tlc(module, cfg + '.cfg', emit=p, beh=beh)
        if rc != 0 or 'Model checking completed. No error' not in out:
            raise ToolError('model %s (%s): %s' % (module, cfg, out[-3000:]))
        n = 0
        if beh:
            o = p + '.out'
            rc, txt = run([VH, 'replay', p, o], 800, env=dict(os.environ, FOCUS=self.prop))
            if rc != 0:
                self.crashed('replaying behaviours of %s' % module, rc, o, {'model': module})
            else:
                r = json.loads(txt.strip().splitlines()[-1])
                n = r['replayed']
                if r['mismatches']:
                    for line in list(open(o))[:3]:
                        d = json.loads(line)
                        self.violation('behaviour of %s not followed' % module, d)
            if len(self.samples) < 8 and len(beh[-1]) < 5000:
                self.samples.append({'model': module, 'behaviour': json.loads(beh[-1])})
        os.remove(p)
        self.traces += n
        self.runs.append({'model': module, 'cfg': cfg, 'states': dist, 'transitions': gen, 'replayed': n, 'wall_s': round(time.time() - t0, 1)})

    # -- known findings ------------------------------------------------------
    def known(self):
        """entries `known: property=<id> match=<json> <what>`: match is a set of
        key/value pairs that a violation's event or behaviour must contain"""
        r = []
        p = os.path.join(ROOT, 'KNOWN_FINDINGS')
        for line in open(p) if os.path.exists(p) else []:
            m = re.match(r'known: property=(\S+) match=(\{.*?\}) (.*)', line)
            if m and m.group(1) == self.prop:
                r.append((json.loads(m.group(2)), m.group(3).strip()))
        return r

    def main(self):
        t0 = time.time()
        build()
        for module, q, t in MODELS.get(self.prop, []):
            self.model(module, q if self.tier == 'quick' else t)
            if self.viol:
                break
        for fam, q, t, per in FAMS[self.prop]:
            if self.viol:
                break
            self.traces_of(fam, q if self.tier == 'quick' else t, per)
        known = self.known()
        bad = []
        for what, path, d in self.viol:
            e = d.get('event') or d.get('behaviour') or {}
            if not any(all(e.get(k) == v for k, v in m.items()) for m, _ in known):
                bad.append((what, path))
        for _, what in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
                         'samples': self.samples or ['none'], 'runs': self.runs},
            'assumptions': ['TLC, the CommunityModules and the projection of library values in harness/src/proj.rs are trusted'],
            'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what, path in bad:
            print('%s: %s' % (self.prop, what[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('%s %s: %d states, %d transitions, %d traces, %d violations, %.0f s'
              % (self.prop, self.tier, self.states, self.trans, self.traces, len(bad), time.time() - t0))
        return 1 if bad else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(prop, tier)
    try:
        return c.main()
    except (ToolError, subprocess.TimeoutExpired, OSError) as e:
        print('ERROR %s: %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(c.out, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
