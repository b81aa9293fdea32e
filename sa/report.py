"""Common check driver: reporting, known findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

from .project import AnalysisError, Project
from .consteval import Evaluator, Unknown

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, prop, title):
        self.prop = prop
        self.title = title
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.rules = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.project = Project()
        self.ev = Evaluator(self.project)
        self.known = self._load_known()
        self.known_hit = []

    def _load_known(self):
        path = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return [e for e in json.load(f).get('findings', [])
                    if e.get('property') == self.prop]

    def rule(self, name, text):
        self.rules.setdefault(name, {'text': text, 'obligations': 0, 'violations': 0})

    def ok(self, rule, where, what=''):
        """One discharged obligation."""
        self.obligations += 1
        self.discharged += 1
        self._count(rule)
        if len(self.samples) < 400:
            self.samples.append('%s: %s %s' % (rule, where, what))

    def _count(self, rule, viol=False):
        r = self.rules.setdefault(rule, {'text': '', 'obligations': 0, 'violations': 0})
        r['obligations'] += 1
        if viol:
            r['violations'] += 1

    def bad(self, rule, construct, where, what):
        """A violated obligation. ``construct`` identifies it without line numbers."""
        self.obligations += 1
        key = '%s|%s' % (rule, construct)
        for k in self.known:
            if k['key'] == key:
                self.known_hit.append((k, where, what))
                self._count(rule)
                return
        self._count(rule, True)
        v = {'rule': rule, 'construct': construct, 'where': where, 'what': what, 'key': key}
        if v not in self.violations:
            self.violations.append(v)

    def expect(self, cond, rule, construct, where, what, okwhat=''):
        if cond:
            self.ok(rule, where, okwhat or construct)
        else:
            self.bad(rule, construct, where, what)
        return bool(cond)

    def floor(self, rule, n):
        """The rule must have found at least n instances, else the analysis has lost its
        subject (an error of the check, not a verdict)."""
        got = self.rules.get(rule, {'obligations': 0})['obligations']
        if got < n:
            raise AnalysisError('rule %s matched %d instance(s), expected at least %d: '
                                'the anchor has vanished' % (rule, got, n))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        step = max(1, len(self.samples) // 60)
        cov = {
            'explanation': 'Static analysis of the current source of /repo/src: the syntax '
                           'trees of all modules are parsed, names, imports, classes and '
                           'calls are resolved, and the rules below are decided on them. '
                           'Nothing is executed.',
            'modules_analysed': len(self.project.modules),
            'functions_analysed': sum(1 for _ in self.project.all_functions()),
            'obligations': self.obligations,
            'discharged': self.discharged,
            'rules': {k: v for k, v in self.rules.items()},
            'samples': self.samples[::step][:60],
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough')
              else 'quick', 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 3),
              'violations': len(self.violations)}
        ev['coverage']['violations_found'] = self.violations
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1)
        for k, where, what in self.known_hit:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, k['what'], where))
        if self.violations:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.json')
            with open(rp, 'w') as f:
                json.dump(self.violations, f, indent=1)
            for v in self.violations:
                print('%s: [%s] %s: %s' % (v['where'], v['rule'], v['construct'], v['what']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s ok: %d obligations, %d rules, %.2fs' % (
            self.prop, self.obligations, len(self.rules), wall))
        return 0


def run(prop, title, fn):
    c = None
    try:
        c = Check(prop, title)
        fn(c)
        sys.exit(c.finish())
    except AnalysisError as e:
        if c is not None and c.violations:
            # what was found before the analysis lost its subject stands
            c.notes.append('analysis stopped early: %s' % e)
            print('note: analysis stopped early: %s' % e)
            sys.exit(c.finish())
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        sys.exit(3)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
        sys.exit(3)
