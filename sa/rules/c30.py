"""Data from outside is never executed or turned into objects, and never names what is imported."""
import ast

from ..loader import Module
from ..slices import Code

# what executes its argument or makes arbitrary objects of it
RUNS = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'os.system', 'os.popen', 'subprocess.run', 'subprocess.call',
        'subprocess.Popen', 'subprocess.check_output', 'subprocess.check_call', 'subprocess.getoutput', 'subprocess.getstatusoutput',
        'os.execv', 'os.execve', 'os.execl', 'os.execlp', 'os.execvp', 'os.spawnl', 'os.spawnv', 'os.startfile', 'pty.spawn', 'runpy.run_path',
        'runpy.run_module', 'code.interact', 'timeit.timeit', 'types.FunctionType'}
MAKES = {m + '.' + f for m in ('pickle', 'cPickle', '_pickle', 'marshal', 'dill', 'cloudpickle', 'joblib') for f in ('load', 'loads', 'Unpickler')}
MAKES |= {'shelve.open', 'jsonpickle.decode', 'yaml.unsafe_load', 'yaml.unsafe_load_all', 'yaml.full_load', 'yaml.full_load_all', 'pandas.read_pickle',
          'ruamel.yaml.load'}
SAFE = {'yaml.SafeLoader', 'yaml.CSafeLoader', 'yaml.BaseLoader', 'yaml.CBaseLoader'}
IMPORTS = {'builtins.__import__', 'importlib.import_module', 'importlib.__import__', 'cryptojwt.utils.importer', 'oidcmsg.util.importer',
           'importlib.util.spec_from_file_location', 'pkgutil.resolve_name', 'pydoc.locate', 'imp.load_source', 'imp.load_module',
           'logging.config.dictConfig', 'logging.config.fileConfig', 'oidcrp.util.importer'}

# what comes from the network or from what is stored about sessions and providers
CALLS = {'get_response', 'parse_response', 'service_request', 'do_request', 'http', 'verify_compact', 'verify_compact_verbose', 'unpack',
         'from_json', 'from_urlencoded', 'from_jwt', 'parse_qs', 'parse_qsl', 'json', 'get_state', 'get_item', 'get_iss', 'multiple_extend_request_args',
         'extend_request_args', 'get_state_by_nonce', 'get_state_by_sub', 'get_state_by_sid', 'get_state_by_logout_state', 'urlopen',
         'get_state_by_x', 'parse_cookie', 'cookie_parts', 'get_cookie', 'recv'}
ATTRS = {'text', 'content', 'provider_info', 'registration_response'}
PARAMS = {'resp', 'response', 'info', 'authorization_response', 'http_response', 'reqresp', 'httpresp', 'token_response', 'cookie_dict'}

SAMPLE = '''
import pickle as p, yaml, os
from importlib import import_module as im
from subprocess import Popen
def a(x, resp):
    p.loads(x)
    load = p.loads
    load(x)
    getattr(p, 'load')(x)
    yaml.load(x)
    yaml.load(x, Loader=yaml.Loader)
    eval(x)
    os.system('ls ' + x)
    Popen(x)
    im(resp['module'])
    name = resp.get('cls')
    c(name)
    getattr(a, 'do_' + name)()
    handler = getattr(a, name)
    handler()
def c(name):
    return __import__('x.{}'.format(name))
def b(conf):
    yaml.safe_load(conf)
    yaml.load(conf, Loader=yaml.SafeLoader)
    im(conf['module'])
    exec('pass')
    getattr(b, 'c_{}'.format(conf['what']))()
'''


def check(ctx):
    ctx.rule('C30.sample', 'the rule finds each kind of violation in a sample of its own', 12)
    ctx.rule('C30.execute', 'nothing that is not constant is executed or run as a command', 100)
    ctx.rule('C30.objects', 'files and messages are read with parsers that give plain data only', 4)
    ctx.rule('C30.import', 'what is imported is named by configuration', 4)
    ctx.rule('C30.select', 'no method is selected by name from data from outside')
    sample(ctx)
    found, stats = judge(Code(ctx.prog.repo_modules))
    for rule, ok, scope, what, msg, line in found:
        ctx.ob(rule, ok, scope.dotted, what, msg, line)
        ctx.analysed.add(scope.dotted)
    ctx.notes.append('{} calls examined, {} expressions in slices'.format(*stats))


def sample(ctx):
    m = object.__new__(Module)
    m.name, m.path, m.is_repo, m.is_pkg, m.source, m.bindings = 'sample', 'sample', False, False, SAMPLE, {}
    m.tree = ast.parse(SAMPLE)
    found, _ = judge(Code([m]))
    lines = SAMPLE.split('\n')
    bad = {line for rule, ok, scope, what, msg, line in found if not ok}
    want = {i + 1 for i, t in enumerate(lines) if any(x in t for x in (
        'p.loads(x)', 'load(x)', 'getattr(p', 'yaml.load(x', 'eval(', 'os.system', 'Popen(x', "im(resp", '__import__(', "'do_'", 'getattr(a, name)'))}
    for w in sorted(want | bad):
        ctx.ob('C30.sample', w in want and w in bad, 'sa.rules.c30', lines[w - 1].strip(), 'the rule does not judge its sample rightly', w)


def outside(code, sc, e):
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', None)
        if n in CALLS:
            return 'the result of {}()'.format(n)
    if isinstance(e, ast.Attribute) and e.attr in ATTRS:
        return 'attribute ' + e.attr
    if isinstance(e, tuple) and e[1] in PARAMS:
        return 'parameter {} of {}'.format(e[1], sc.name)
    return None


def constant(e):
    return all(not isinstance(x, (ast.Name, ast.Attribute, ast.Call)) for x in ast.walk(e))


def judge(code):
    res, calls, exprs = [], 0, 0
    for sc in code.scopes:
        for c in sc.calls:
            calls += 1
            p = code.path(sc, c.func)
            args = list(c.args) + [k.value for k in c.keywords]
            if p in RUNS:
                res.append(('C30.execute', all(constant(a) for a in args[:1]), sc, p, p + ' of something that is not constant', c.lineno))
            else:
                res.append(('C30.execute', True, sc, 'call', '', c.lineno))
            if p in MAKES:
                res.append(('C30.objects', False, sc, p, p + ' makes arbitrary objects', c.lineno))
            elif p in ('yaml.load', 'yaml.load_all'):
                loader = [k.value for k in c.keywords if k.arg == 'Loader'] + c.args[1:2]
                ok = bool(loader) and code.path(sc, loader[0]) in SAFE
                res.append(('C30.objects', ok, sc, p, p + ' with a loader that makes arbitrary objects', c.lineno))
            elif p and p.startswith(('yaml.', 'json.')) and 'load' in p:
                res.append(('C30.objects', True, sc, p, '', c.lineno))
            if p in IMPORTS:
                found = []
                for a in args[:1]:
                    f, n = code.origins(sc, a, outside)
                    exprs += n
                    found += f
                res.append(('C30.import', not found, sc, p, 'what is imported comes from {} by way of {}'.format(
                    found[0][0], ' < '.join(found[0][1])) if found else '', c.lineno))
            if p == 'builtins.getattr' and len(c.args) > 1 and not constant(c.args[1]) and invoked(code, sc, c):
                found, n = code.origins(sc, c.args[1], outside)
                exprs += n
                res.append(('C30.select', not found, sc, p, 'a method is selected by {} by way of {}'.format(
                    found[0][0], ' < '.join(found[0][1])) if found else '', c.lineno))
    return res, (calls, exprs)


def invoked(code, sc, c, depth=0):
    """the result of getattr is called, in the same function or in one that gets it"""
    names = {n for n, ds in sc.defs.items() for _, v in ds if v is c}
    if any(x.func is c or isinstance(x.func, ast.Name) and x.func.id in names for x in sc.calls):
        return True
    if depth < 4 and any(r is c or isinstance(r, ast.Name) and r.id in names for r in sc.returns):
        return any(invoked(code, sc2, c2, depth + 1) for sc2, c2 in code.called.get(getattr(sc.node, 'name', None), ()) if sc in code.targets(sc2, c2.func))
    return False
