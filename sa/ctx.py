"""Obligations of one property, their verdicts, the evidence and the exit."""
import json
import os
import time

import engine
import front
from front import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class RevEngine(engine.Engine):
    dictrev = True


class Ctx(object):
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obs = []          # (rule, construct, verdict, detail)
        self.analysed = set()
        self.rules = {}
        self.assumptions = []
        self.broken = []
        self._mods = None

    # ---------------------------------------------------------- program
    @property
    def mods(self):
        if self._mods is None:
            self._mods, self.digest, self.files = front.load()
        return self._mods

    def engine(self, **opts):
        """a fresh interpreter of the current sources"""
        base = engine.Engine
        if opts.pop('dictrev', False):
            base = RevEngine
        if 'real' in opts:
            base = type('Engine', (base,), {'real': opts.pop('real')})
        e = base(self.mods, None)
        e.UNTIL = self.t0 + (420 if self.tier == 'quick' else 5000)
        for k, v in opts.items():
            assert hasattr(e, k), k
            setattr(e, k, v)
        return e

    def rel(self, path):
        r = os.path.relpath(path, front.REPO)
        return r

    # ---------------------------------------------------------- verdicts
    def rule(self, name, text):
        self.rules[name] = text

    def proved(self, rule, construct, detail=''):
        self.obs.append((rule, construct, 'proved', detail))

    def violated(self, rule, construct, detail):
        self.obs.append((rule, construct, 'violated', detail))

    def unknown(self, rule, construct, detail):
        self.obs.append((rule, construct, 'unknown', detail))

    def decide(self, rule, construct, verdict, detail=''):
        {True: self.proved, False: self.violated,
         None: self.unknown}[verdict](rule, construct, detail)

    def saw(self, *quals):
        self.analysed.update(quals)

    # ---------------------------------------------------------- the end
    def known(self):
        path = os.path.join(VERIF, 'known-findings.txt')
        out = {}
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' :: ')
                    out[key.replace('key=', '', 1)] = what
        return out

    def followed(self):
        import engine
        mine = set(self.rel(f) for f in self.files)
        out = {}
        for f, l in engine.REACHED:
            if not f:
                continue
            out.setdefault(self.rel(f), set()).add(l)
        if os.environ.get('SA_COVER'):
            with open(os.environ['SA_COVER'] + self.prop, 'w') as f:
                json.dump({k: sorted(v) for k, v in out.items()}, f)
        return {k: len(v) for k, v in sorted(out.items()) if k in mine}

    def finish(self):
        known = self.known()
        bad, listed = [], []
        for rule, cons, verdict, detail in self.obs:
            if verdict == 'violated':
                key = '%s|%s' % (rule, cons)
                (listed if key in known else bad).append(
                    (key, rule, cons, detail))
        count = {}
        for o in self.obs:
            count[o[2]] = count.get(o[2], 0) + 1
        wall = time.time() - self.t0
        ev = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        report = os.path.join(ev, self.prop + '.report.txt')
        with open(report, 'w') as f:
            for key, rule, cons, detail in bad:
                f.write('VIOLATED %s\n  at %s\n  rule: %s\n  %s\n' % (
                    rule, cons, self.rules.get(rule, rule), detail))
            for rule, cons, verdict, detail in self.obs:
                if verdict != 'violated':
                    f.write('%s %s at %s %s\n' % (
                        verdict, rule, cons, detail))
        undecided = [dict(rule=o[0], construct=o[1], why=o[3][:300])
                     for o in self.obs if o[2] == 'unknown']
        samples = ['%s: %s: %s' % (o[0], o[1], o[3][:160])
                   for o in self.obs if o[2] == 'proved'][:8]
        data = dict(
            property=self.prop, tier=self.tier,
            seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
            coverage=dict(
                explanation='static analysis of the current sources: every '
                'obligation is a rule applied to one construct found in '
                'them; proved = established on every summarised path, '
                'undecided = outside what the analysis can follow',
                obligations=len(self.obs),
                discharged=count.get('proved', 0),
                violated=count.get('violated', 0),
                undecided=undecided,
                functions_analysed=sorted(self.analysed),
                rules=self.rules, samples=samples,
                statements_followed=self.followed(),
                source_files=[self.rel(f) for f in self.files],
                source_digest=self.digest),
            assumptions=self.assumptions, wall_s=round(wall, 2),
            violations=[dict(rule=r, construct=c, detail=d[:600])
                        for k, r, c, d in bad])
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump(data, f, indent=1)
        print('%s: %d obligations, %d proved, %d violated, %d undecided '
              '(%.1f s)' % (self.prop, len(self.obs), count.get('proved', 0),
                            count.get('violated', 0),
                            count.get('unknown', 0), wall))
        for key, rule, cons, detail in listed:
            print('KNOWN-FINDING: property=%s %s %s' % (
                self.prop, key, known[key]))
        for key, rule, cons, detail in bad[:8]:
            print('  violated %s at %s: %s' % (rule, cons, detail[:300]))
        if not self.obs:
            raise AnalysisBroken('no obligation was found')
        if bad:
            print('VIOLATION property=%s replay=%s' % (
                self.prop, os.path.relpath(report, VERIF)))
            return 1
        return 0
