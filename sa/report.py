"""Obligations, findings, evidence."""
import contextlib
import json
import os
import signal
import time

from . import q
from .engine import Config
from .engine import Engine
from .engine import Limit
from .loader import AnalysisBroken
from .loader import Program
from .loader import REPO
from .terms import undeep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Run:
    def __init__(self, func, eng, outs, self_val):
        self.func = func
        self.eng = eng
        self.outs = outs
        self.self_val = self_val

    def value(self, o, t=None):
        """what an outcome yields, references resolved"""
        return undeep(self.eng.freeze(o.state, o.value if t is None else t))

    def get(self, o, cont, key):
        """[(state, value or None)] the values a container has under a key at the end of an outcome"""
        from .q import values
        return [(s, v if v is None else undeep(v)) for s, v in values(self.eng, getattr(o, 'state', o), cont, key)]

    def get_attr(self, o, obj, name):
        """[(state, value)] of an attribute at the end of an outcome"""
        eng = self.eng
        saved, eng.sink = eng.sink, []
        eng.callstack = eng.callstack or ['?']
        try:
            return [(s, undeep(eng.freeze(s, v))) for s, v in eng.load_attr(o.state, obj, name, None)]
        finally:
            eng.sink = saved

    @property
    def returns(self):
        return [o for o in self.outs if o.kind == 'return']

    @property
    def raises(self):
        return [o for o in self.outs if o.kind == 'raise']


BASE_TYPES = {('sym', 'client'): 'oidcrp.oidc.RP',
              ('sym', 'service'): 'oidcrp.service.Service',
              ('sym', 'service_context'): 'oidcrp.service_context.ServiceContext',
              ('sym', '_context'): 'oidcrp.service_context.ServiceContext'}


class Ctx:
    def __init__(self, prop, prog=None, tier='quick'):
        self.prop = prop
        self.prog = prog or Program()
        self.tier = tier
        self.obligations = {}       # rule -> [count, failed]
        self.findings = []
        self.undecided = []
        self.analysed = set()
        self.paths = 0
        self.rules = {}
        self.notes = []
        self.cache = {}
        self.kept = []
        self.samples = []
        # what takes longer is left undecided, so that there is an answer in time
        self.per_run, total = (90, 600) if tier == 'quick' else (300, 800)
        self.end = time.monotonic() + total

    # -- running the analysis
    def run(self, dotted, self_val=None, args=None, kwargs=None, types=None, **cfg):
        try:
            func = self.prog.func(dotted) if isinstance(dotted, str) else dotted
        except AnalysisBroken as err:
            if str(err) not in self.undecided:
                self.undecided.append(str(err))
            return None
        types = {**BASE_TYPES, **(types or {})}
        if func.cls is not None and self_val is None and 'staticmethod' not in func.decs:
            self_val = ('sym', 'self')
            cls = func.cls
            if isinstance(dotted, str) and dotted.count('.') > 1:
                try:
                    cls = self.prog.cls(dotted.rpartition('.')[0])
                except AnalysisBroken:
                    cls = func.cls
            types.setdefault(self_val, cls.dotted)
        key = (func.dotted, self_val, repr(args), repr(kwargs), repr(sorted(types.items(), key=repr)),
               repr(sorted((k, sorted(v) if isinstance(v, set) else v) for k, v in cfg.items())))
        if key in self.cache:
            return self.cache[key]
        self.kept.append(cfg)      # functions in the key are told apart by their addresses
        c = Config(types=types, **cfg)
        eng = Engine(self.prog, c)
        q.LITERAL[0] = eng.glob_value
        try:
            with clock(self.end, self.per_run, func.dotted):
                outs = eng.run(func, self_val=self_val, args=args, kwargs=kwargs)
        except (Limit, RecursionError) as err:
            self.undecided.append('{}: {}'.format(func.dotted, err))
            self.cache[key] = None
            return None
        self.analysed |= eng.analysed
        self.paths += len(outs)
        r = Run(func, eng, outs, self_val)
        self.cache[key] = r
        return r

    # -- obligations
    def rule(self, rid, text, minimum=1):
        self.rules[rid] = (text, minimum)
        self.obligations.setdefault(rid, [0, 0])

    def ob(self, rid, ok, func, construct, msg='', line=None, detail=None):
        """one instance of a rule"""
        assert rid in self.rules, rid
        rec = self.obligations[rid]
        rec[0] += 1
        if ok:
            return True
        rec[1] += 1
        where = func if isinstance(func, str) else func.dotted
        path = '' if isinstance(func, str) else func.where
        key = '{}|{}|{}'.format(rid, where, construct)
        if not any(f['key'] == key and f['msg'] == msg for f in self.findings):
            self.findings.append({'key': key, 'rule': rid, 'function': where, 'file': path, 'construct': construct,
                                  'line': line if line is not None else ('' if isinstance(func, str) else
                                                                         getattr(func.node, 'lineno', '')),
                                  'msg': msg, 'rule_text': self.rules[rid][0], 'detail': detail})
        return False

    def unclear(self, what):
        """something a rule can not judge in the form it has"""
        if what not in self.undecided:
            self.undecided.append(what)

    def broken(self, what):
        raise AnalysisBroken(what)

    def check_counts(self):
        for rid, (text, minimum) in self.rules.items():
            if self.obligations[rid][0] < minimum:
                if self.undecided:
                    continue
                raise AnalysisBroken('rule {} found {} instances, at least {} expected: {}'.format(
                    rid, self.obligations[rid][0], minimum, text))


def known_findings():
    res = {}
    path = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(path):
        with open(path) as fp:
            for rec in json.load(fp).get('known', []):
                res[(rec['property'], rec['key'])] = rec
    return res


@contextlib.contextmanager
def clock(end, most, what):
    """raise Limit when something takes longer than it should"""
    def over(signum, frame):
        raise Limit('too long in ' + what)
    left = min(end - time.monotonic(), most)
    if left <= 0:
        raise Limit('no time left for ' + what)
    before = signal.signal(signal.SIGALRM, over)
    outer = signal.setitimer(signal.ITIMER_REAL, left)[0]
    began = time.monotonic()
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)
        if outer:
            signal.setitimer(signal.ITIMER_REAL, max(outer - (time.monotonic() - began), 0.01))


def run_check(prop, func, tier, seed, level_note=''):
    """-> exit status"""
    t0 = time.time()
    ctx = Ctx(prop, tier=tier)
    error = None
    try:
        with clock(ctx.end + 100, 880, 'the rules'):
            func(ctx)
        if not ctx.findings:
            ctx.check_counts()
    except AnalysisBroken as err:
        # what was looked at before stands; with nothing looked at there is no answer
        error = str(err)
        if sum(v[0] for v in ctx.obligations.values()):
            ctx.unclear(error)
            error = None
    except Exception as err:    # a form of code that a rule was not written for
        error = 'a rule failed with {}: {}'.format(type(err).__name__, err)
        if os.environ.get('VERIF_DEBUG'):
            raise
        if sum(v[0] for v in ctx.obligations.values()):
            ctx.unclear(error)
            error = None
    known = known_findings()
    new, old = [], []
    for f in ctx.findings:
        rec = known.get((prop, f['key']))
        (old if rec else new).append((f, rec))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the source tree: every listed function was interpreted over abstract '
                           'values from its entry, calls inside the repository followed or treated as units; each '
                           'rule instance is one obligation on one path, call site or construct.',
            'modules_parsed': len(ctx.prog.repo_modules),
            'source_digest': ctx.prog.digest(),
            'functions_analysed': sorted(ctx.analysed),
            'abstract_paths': ctx.paths,
            'obligations': sum(v[0] for v in ctx.obligations.values()),
            'obligations_failed': sum(v[1] for v in ctx.obligations.values()),
            'rules': {rid: {'text': t, 'instances': ctx.obligations[rid][0], 'minimum': m}
                      for rid, (t, m) in ctx.rules.items()},
            'undecided': ctx.undecided,
            'known_findings': [f['key'] for f, _ in old],
            'notes': ctx.notes,
        },
        'wall_s': round(time.time() - t0, 3),
        'assumptions': ['calls into libraries behave as their names and the rules state',
                        'no code outside src/oidcrp changes the analysed classes at run time'],
        'violations': [{k: v for k, v in f.items() if k != 'detail'} for f, _ in new],
    }
    if error:
        ev['coverage']['error'] = error
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
        fp.write('\n')
    for f, rec in old:
        print('KNOWN-FINDING: property={} {}'.format(prop, rec['what']))
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '.txt')
        with open(path, 'w') as fp:
            for f, _ in new:
                fp.write('{file}:{line} {function}\n  rule {rule}: {rule_text}\n  {construct}: {msg}\n'.format(**f))
                if f['detail']:
                    fp.write('  path:\n    ' + str(f['detail']).replace('\n', '\n    ') + '\n')
        for f, _ in new[:20]:
            print('{file}:{line}: {function}: rule {rule}: {construct}: {msg}'.format(**f))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if error:
        print('ANALYSIS-BROKEN: {}'.format(error))
        return 2
    for u in ctx.undecided[:20]:
        print('UNDECIDED: {}'.format(u))
    print('{}: {} obligations, {} paths, {} functions{} in {:.1f} s'.format(
        prop, ev['coverage']['obligations'], ctx.paths, len(ctx.analysed),
        ', undecided: {}'.format(len(ctx.undecided)) if ctx.undecided else '', time.time() - t0))
    return 0
